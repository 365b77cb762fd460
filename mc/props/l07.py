from props.common import Job, derived_domains, find, with_reset
from props.prims import Clocks, Nets, boxes


class Pad:
    pass


def pads(inverted):
    from migen import Signal
    p, n = Signal(name="pad_p"), Signal(name="pad_n")
    if inverted:
        p.inverted = True
    return p, n


def capture_wrong(frag, of, n, ddr, fast, word, dclk):
    """What is wrong with the settings of the capturing primitives, or None."""
    ck = Clocks(frag)
    for p, q in boxes(frag, of):
        if p.get("DATA_WIDTH") != n or p.get("DATA_RATE") != ("DDR" if ddr else "SDR"):
            return "the deserialiser captures %s bits %s, %d are taken from it" % (p.get("DATA_WIDTH"), p.get("DATA_RATE"), n)
        if ck.domain(q.get("CLK", q.get("CLK0"))) not in (fast, None) or ck.domain(q["CLKDIV"]) not in (word, None):
            return "the deserialiser is clocked by %s and %s" % (ck.domain(q.get("CLK", q.get("CLK0"))), ck.domain(q["CLKDIV"]))
    for k in ("IDELAYE2", "IODELAY2"):
        for p, q in boxes(frag, k):
            if ck.domain(q.get("C", q.get("CLK"))) not in (dclk, None):
                return "the delay is clocked by %s" % ck.domain(q.get("C", q.get("CLK")))
    return None


def s7_boxes(frag):
    buf = find(frag, "IBUFDS_DIFF_OUT")[0]
    dl = find(frag, "IDELAYE2")
    sd = find(frag, "ISERDESE2")
    r, same = {}, Nets(frag).same
    for nm, port in (("m", "O"), ("s", "OB")):
        d = [x for x in dl if same(x["IDATAIN"], buf[port])][0]
        s = [x for x in sd if same(x["DDLY"], d["DATAOUT"])][0]
        r[nm] = (d, s)
    return r


def s7(inverted, ctl, ntbits=8):
    def f():
        from litevideo.input.datacapture import S7DataCapture
        from migen import Cat
        m = S7DataCapture(*pads(inverted), ntbits=ntbits)
        frag = with_reset(m.get_fragment(), ["sys", "pix", "pix1p25x", "pix2x"])
        b = s7_boxes(frag)
        md, ms = b["m"]
        sd, ss = b["s"]
        i = {}
        o = dict(d=m.d)
        q = lambda s: [s["Q%d" % (8 - k)] for k in range(8)]     # Q8 is the oldest bit
        if ctl:
            i.update(m=Cat(*q(ms)), s=Cat(*q(ss)), ctl_re=m._dly_ctl.re, ctl_r=m._dly_ctl.r, phase_reset=m._phase_reset.re)
            o.update(mce=md["CE"], minc=md["INC"], ldm=md["LD"], sce=sd["CE"], sinc=sd["INC"], ld=sd["LD"], phase=m._phase.status)
            clocks, edges = ["sys", "pix", "pix1p25x"], [("sys", "pix", "pix1p25x"), ("sys",), ("pix", "pix1p25x")]
        else:
            i.update({"m%d" % (7 - k): x for k, x in enumerate(q(ms))})
            clocks, edges = ["sys", "pix", "pix1p25x"], [("pix1p25x",), ("pix",), ("pix1p25x", "pix")]
        bad = capture_wrong(frag, "ISERDESE2", 8, True, "pix5x", "pix1p25x", "pix1p25x")
        on = [ms["CE1"], ss["CE1"]]
        off = [x[n] for x in (ms, ss) for n in ("RST", "BITSLIP")]
        o.update(on=Cat(*on), off=Cat(*off))
        return dict(module=frag, inputs=i, outputs=o, clocks=clocks, edges=derived_domains(frag, edges), defines=dict(SET_WRONG='"%s"' % bad) if bad else {})
    return f


def tapcount():
    from litevideo.input.datacapture import S7DataCapture
    m = S7DataCapture(*pads(0))
    frag = with_reset(m.get_fragment(), ["sys", "pix", "pix1p25x"])
    b = s7_boxes(frag)
    return dict(module=frag, inputs=dict(m=b["m"][0]["CNTVALUEOUT"], s=b["s"][0]["CNTVALUEOUT"]), outputs=dict(rm=m._cntvalueout_m.status, rs=m._cntvalueout_s.status),
                clocks=["sys", "pix", "pix1p25x"], edges=derived_domains(frag, [("sys",), ("pix1p25x",), ("sys", "pix1p25x")]))


def s6(inverted, ctl, ntbits=8):
    def f():
        from litevideo.input.datacapture import S6DataCapture
        from migen import Cat
        m = S6DataCapture(*pads(inverted), ntbits=ntbits)
        frag = with_reset(m.get_fragment(), ["sys", "pix", "pix1p25x", "pix2x"])
        sd = find(frag, "ISERDES2")
        dl = find(frag, "IODELAY2")
        sm = [s for s in sd if "Q1" in s][0]
        ss = [s for s in sd if "Q1" not in s][0]
        same = Nets(frag).same
        dm = [d for d in dl if same(d["DATAOUT"], sm["D"])][0]
        ds = [d for d in dl if same(d["DATAOUT"], ss["D"])][0]
        # the cascade delivers the five bits oldest first: slave Q4, master Q1..Q4
        i = {"s3": ss["Q4"], "m0": sm["Q1"], "m1": sm["Q2"], "m2": sm["Q3"], "m3": sm["Q4"]}
        o = dict(d=m.d)
        if ctl:
            i = dict(ctl_re=m._dly_ctl.re, ctl_r=m._dly_ctl.r, phase_reset=m._phase_reset.re, pd_valid=sm["VALID"], pd_incdec=sm["INCDEC"],
                     mbusy=dm["BUSY"], sbusy=ds["BUSY"])
            o = dict(mce=dm["CE"], minc=dm["INC"], mcal=dm["CAL"], mrst=dm["RST"], sce=ds["CE"], sinc=ds["INC"], scal=ds["CAL"], srst=ds["RST"],
                     phase=m._phase.status, busy=m._dly_busy.status)
            clocks, edges = ["sys", "pix", "pix2x"], [("sys", "pix", "pix2x"), ("sys",), ("pix", "pix2x")]
        else:
            clocks, edges = ["sys", "pix", "pix2x"], [("pix2x",), ("pix",), ("pix2x", "pix")]
        bad = capture_wrong(frag, "ISERDES2", 5, False, "pix10x", "pix2x", "pix2x")
        i["strobe"] = m.serdesstrobe
        o.update(on=Cat(sm["CE0"], ss["CE0"]), off=Cat(*[x[n] for x in (sm, ss) for n in ("RST", "BITSLIP")]), io=Cat(sm["IOCE"], ss["IOCE"]))
        return dict(module=frag, inputs=i, outputs=o, clocks=clocks, edges=derived_domains(frag, edges), defines=dict(SET_WRONG='"%s"' % bad) if bad else {})
    return f


CC = {1: "too late reported", 2: "too early reported", 3: "delay operation"}


def jobs(tier):
    J = []
    for inv in (0, 1):
        J.append(Job("s7-words-inv%d" % inv, s7(inv, False), "capture.cpp", sweep=True, covers={0: "stream"}, defines=dict(S7=1, INV=inv), traces=2))
        J.append(Job("s6-words-inv%d" % inv, s6(inv, False), "capture.cpp", sweep=True, covers={0: "stream"}, defines=dict(S6=1, INV=inv), traces=2))
        J.append(Job("s7-control-inv%d" % inv, s7(inv, True, 3), "capctl.cpp", covers=CC, defines=dict(S7=1, INV=inv, NT=3), max_states=20000))
    J.append(Job("s7-taps", tapcount, "taps.cpp", sweep=True, covers={0: "values read"}, threads=2, traces=2, conform_cycles=1500))
    for busy in (1, 3, 8):
        J.append(Job("s6-control-b%d" % busy, s6(0, True, 3), "capctl.cpp", covers={**CC, 4: "busy"}, defines=dict(S6=1, INV=0, NT=3, BUSY=busy), max_states=20000))
    for ns, nw in ((1, 1), (5, 1), (1, 3)):        # separate system and word clocks
        d = dict(NS=ns, NW=nw, NT=3, INV=0)
        J.append(Job("s7-control-%dto%d" % (ns, nw), s7(0, True, 3), "capctl.cpp", covers=CC, defines=dict(d, S7=1), max_states=20000))
        J.append(Job("s6-control-%dto%d" % (ns, nw), s6(0, True, 3), "capctl.cpp", covers={**CC, 4: "busy"}, defines=dict(d, S6=1, BUSY=3), max_states=20000))
    # every single bit as the one that changes and as the one that differs; the full-size accumulator
    J.append(Job("s7-bits", s7(0, True, 3), "capctl.cpp", covers={k: CC[k] for k in (1, 2)}, defines=dict(S7=1, INV=0, NT=3, OBS=1, BITS=1), max_states=20000))
    C12 = {k: CC[k] for k in (1, 2)}
    J.append(Job("s7-size", s7(0, True), "capctl.cpp", covers=C12, defines=dict(S7=1, INV=0, NT=8, OBS=1), max_states=20000))
    J.append(Job("s6-size", s6(0, True), "capctl.cpp", covers=C12, defines=dict(S6=1, INV=0, NT=8, OBS=1, BUSY=1), max_states=20000))
    return J
