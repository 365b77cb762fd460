from props.common import Job, find, with_reset
from props.prims import Clocks, Nets, boxes, faults


class Pads:
    pass


def hdmi_pads(inv=0, clkinv=False):
    from migen import Signal
    p = Pads()
    for k in range(3):
        for s in "pn":
            x = Signal(name="data%d_%s" % (k, s))
            if inv >> k & 1:
                x.inverted = True
            setattr(p, "data%d_%s" % (k, s), x)
    p.clk_p, p.clk_n = Signal(name="clk_p"), Signal(name="clk_n")
    if clkinv:
        p.clk_p.inverted = True
    return p


class External:
    """What another driver's clocking offers."""
    def __init__(self):
        from migen import Signal
        self.pll0_pix10x, self.pll1_pix2x, self.pll2_pix, self.pll_locked = Signal(), Signal(), Signal(), Signal()


def lane(frag, pad, of):
    """(bits of the serializer behind a pad, first transmitted bit first; sent inverted; master and slave (params, ports))."""
    same = Nets(frag).same
    buf = [b for b in find(frag, "OBUFDS") if same(b["O"], pad) or same(b["OB"], pad)][0]
    sers = boxes(frag, of)
    ms = [s for s in sers if same(s[1].get("OQ"), buf["I"])][0]
    m = ms[1]
    if of == "OSERDESE2":
        sl = [s for s in sers if same(s[1].get("SHIFTOUT1"), m["SHIFTIN1"])][0]
        bits = [m["D%d" % k] for k in range(1, 9)] + [sl[1]["D3"], sl[1]["D4"]]
    else:
        sl = [s for s in sers if same(s[1].get("SHIFTOUT3"), m["SHIFTIN3"])][0]
        bits = [sl[1]["D1"], sl[1]["D2"], sl[1]["D3"], sl[1]["D4"], m["D1"]]
    return bits, not same(buf["O"], pad), (ms, sl)


def set_wrong(ck, of, pair):
    """What is wrong with the settings of a serializer pair for sending its bits one by one, or None."""
    for (p, q), mode in zip(pair, ("MASTER", "SLAVE")):
        n = 10 if of == "OSERDESE2" else 5
        ddr = p.get("DATA_RATE_OQ") == "DDR"
        if p.get("SERDES_MODE") != mode:
            return "the %s serializer is set to %s" % (mode, p.get("SERDES_MODE"))
        if p.get("DATA_WIDTH") != n:
            return "the serializer's width is %s, %d bits are given to it" % (p.get("DATA_WIDTH"), n)
        clk = q["CLK"] if of == "OSERDESE2" else q["CLK0"]
        r = ck.ratio(clk, q["CLKDIV"])
        if r is not None and r * (2 if ddr else 1) != n:
            return "the serializer sends %s bits in the time %d are given to it" % (r * (2 if ddr else 1), n)
        r = ck.ratio(q["CLKDIV"], ck.cds["pix"].clk)
        if r is not None and r * n != 10:
            return "the serializer takes %s words per pixel" % r
    return None


def is_not(e):
    from migen.fhdl.structure import _Operator
    return isinstance(e, _Operator) and e.op == "~"


def clock_pad(frag, ck, net, swap=False):
    """The double rate output register behind a net: (what is wrong with its clocks or None, its data and control inputs)."""
    from migen import Cat
    od = find(frag, "ODDR2")[0]
    cp, cn = od["C0"], od["C1"]
    if is_not(cp):
        cp, cn, swap = cn, cp, not swap
    bad = None
    if not Nets(frag).same(net, od["Q"]) or ck.domain(cp) != "pix" or ck.domain(cn) != "pix" or is_not(cp) or not is_not(cn):
        bad = "the clock output does not send the pixel clock"
    d0, d1 = [~Cat(x) if swap else Cat(x) for x in (od["D0"], od["D1"])]
    return bad, dict(ck0=d0, ck1=d1, ckce=od["CE"], ckrs=Cat(od["R"], od["S"]))


def drv(family, mode, inv=0, clkinv=False, ext=False):
    def f():
        from litevideo.output.driver import Driver
        from migen import Cat
        p = hdmi_pads(inv, clkinv)
        ext_ck = External()
        m = Driver(family, p, mode, ext_ck) if ext else Driver(family, p, mode)
        frag = with_reset(m.get_fragment(), ["sys"])
        s = m.sink
        i = dict(de=s.de, hsync=s.hsync, vsync=s.vsync)
        i.update(dict(c0=s.c0, c1=s.c1, c2=s.c2) if mode == "raw" else dict(r=s.r, g=s.g, b=s.b))
        o = dict(ready=s.ready)
        of = "OSERDESE2" if family == "xc7" else "OSERDES2"
        ck = Clocks(frag, [(ext_ck.pll0_pix10x, "pll", 10), (ext_ck.pll1_pix2x, "pll", 2), (ext_ck.pll2_pix, "pll", 1)] if ext else None)
        bad, ce, rst, io = None, [], [], []
        for k, pad in enumerate([getattr(p, "data%d_p" % k) for k in range(3)] + ([p.clk_p] if family == "xc7" else [])):
            bits, swapped, pair = lane(frag, pad, of)
            o["l%d" % k] = Cat(*[~b if swapped else b for b in bits])
            bad = bad or set_wrong(ck, of, pair)
            for _, q in pair:
                ce.append(q["OCE"])
                rst.append(q["RST"])
                if "TRAIN" in q:                 # sends a training pattern instead
                    rst.append(q["TRAIN"])
                io.append(q.get("IOCE", 0))
        o.update(ce=Cat(*ce), rst=Cat(*rst))
        if ext and (ck.rate(ck.cds["pix"].clk) or ["pll"])[0] != "pll":
            bad = "the pixel clock is not the external one"
        bad = bad or faults(ck, frag)
        d = {"SET_WRONG": '"%s"' % bad} if bad else {}
        if family == "xc7":
            i["locked"] = find(frag, "MMCME2_ADV")[0]["LOCKED"]
            return dict(module=frag, inputs=i, outputs=o, clocks=["sys", "pix"], edges=[("pix",)], defines=d)
        i["strobe"] = find(frag, "BUFPLL")[0]["SERDESSTROBE"]
        o["io"] = Cat(*io)
        buf = [b for b in find(frag, "OBUFDS") if Nets(frag).same(b["O"], p.clk_p) or Nets(frag).same(b["OB"], p.clk_p)][0]
        wrong, ports = clock_pad(frag, ck, buf["I"], not Nets(frag).same(buf["O"], p.clk_p))
        if wrong:
            d.setdefault("SET_WRONG", '"%s"' % wrong)
        o.update(ports)
        i["pixclk"] = m.clocking.cd_pix.clk
        return dict(module=frag, inputs=i, outputs=o, clocks=["sys", "pix", "pix2x"], edges=[("pix2x",), ("pix", "pix2x")], defines=d)
    return f


def jobs(tier):
    J = []
    for mode in ("rgb", "raw"):
        for inv in (0, 5):
            d = dict(INV=inv, INVC=1 if inv else 0)
            if mode == "raw":
                d["RAW"] = 1
            J.append(Job("s7-%s-inv%d" % (mode, inv), drv("xc7", mode, inv, bool(inv)), "serial.cpp", sweep=True, covers={0: "pixel"},
                         defines=dict(d, S7=1, CLKLANE=1, LOCK=1), traces=2))
            J.append(Job("s6-%s-inv%d" % (mode, inv), drv("xc6", mode, inv, bool(inv), ext=bool(inv)), "serial.cpp", sweep=True, covers={0: "pixel"},
                         defines=d, traces=2))
    return J
