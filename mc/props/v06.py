from props.common import Job, derived_domains, find, with_csrs
from props.prims import Nets


class Pads:
    pass


def pads(inv=()):
    from migen import Signal
    p = Pads()
    for n in ("clk", "data0", "data1", "data2"):
        a, b = Signal(name=n + "_p"), Signal(name=n + "_n")
        if n in inv:
            a.inverted = True
        setattr(p, n + "_p", a)
        setattr(p, n + "_n", b)
    return p


def build(device, hdmi, port=None, mode="ycbcr422", inv=(), split=False, wer=False, own=False):
    def f():
        from migen import Cat, Signal
        from litevideo.input import HDMIIn
        p = pads(inv)
        dp = None
        if port:
            from litedram.common import LiteDRAMNativePort
            dp = LiteDRAMNativePort("write", *port)
        m = HDMIIn(p, dp, device=device, hdmi=hdmi, mode=mode, fifo_depth=64, split_mmcm=split)
        pol = m.syncpol
        o = dict(valid=pol.valid_o, de=pol.de, hsync=pol.hsync, vsync=pol.vsync, r=pol.r, g=pol.g, b=pol.b, c0=pol.c0, c1=pol.c1, c2=pol.c2,
                 hres=m.resdetection._hres.status, vres=m.resdetection._vres.status, sync=m.chansync._channels_synced.status,
                 cs=Cat(*[getattr(m, "data%d_charsync" % k)._char_synced.status for k in range(3)]), locked=m.clocking._locked.status)
        i = {}
        top, regs = with_csrs(m)
        frag = top.get_fragment()
        lock = [x["LOCKED"] for x in find(frag, "MMCME2_ADV") + find(frag, "PLL_ADV")][0]
        if device == "xc6":
            lock = find(frag, "BUFPLL")[0]["LOCK"]
        i["lock"] = lock
        if split:
            i["lock2"] = find(frag, "PLLE2_ADV")[0]["LOCKED"]
        same = Nets(frag).same
        for k in range(3):
            pad = getattr(p, "data%d_p" % k)
            if device == "xc7":
                buf = [x for x in find(frag, "IBUFDS_DIFF_OUT") if same(x["I"], pad)][0]
                d = [x for x in find(frag, "IDELAYE2") if same(x["IDATAIN"], buf["O"])][0]
                s = [x for x in find(frag, "ISERDESE2") if same(x["DDLY"], d["DATAOUT"])][0]
                i["q%d" % k] = Cat(*[s["Q%d" % (8 - j)] for j in range(8)])      # Q8 is the oldest bit
            else:
                buf = [x for x in find(frag, "IBUFDS") if same(x["I"], pad)][0]
                outs = [x["DATAOUT"] for x in find(frag, "IODELAY2") if same(x["IDATAIN"], buf["O"])]
                sd = [x for x in find(frag, "ISERDES2") if any(same(x["D"], z) for z in outs)]
                ms = [x for x in sd if "Q1" in x][0]
                sl = [x for x in sd if "Q1" not in x][0]
                i["q%d" % k] = Cat(sl["Q4"], ms["Q1"], ms["Q2"], ms["Q3"], ms["Q4"])
        if port:
            for n, k in (("fs", "dma_frame_size"), ("st0", "dma_slot0_status"), ("ad0", "dma_slot0_address"), ("st1", "dma_slot1_status"), ("ad1", "dma_slot1_address")):
                i[n + "_re"], i[n + "_r"] = regs[k].re, regs[k].r
            i.update(cready=dp.cmd.ready, wready=dp.wdata.ready)
            o.update(cvalid=dp.cmd.valid, cwe=dp.cmd.we, caddr=dp.cmd.addr, wvalid=dp.wdata.valid, wdata=dp.wdata.data, wwe=dp.wdata.we,
                     ovf=regs["frame_overflow"].w, st0=regs["dma_slot0_status"].w, st1=regs["dma_slot1_status"].w)
        fast = "pix1p25x" if device == "xc7" else "pix2x"
        if wer:
            o = {}
            for k in range(3):
                i["u%d" % k], o["v%d" % k] = regs["data%d_wer_update" % k].re, regs["data%d_wer_value" % k].w
        clocks = ["sys", "pix", fast]
        edges = [(fast,), ("sys", "pix"), ("sys", "pix", fast), ("sys",)]
        if own:         # a system clock of its own
            edges = [(fast,), ("pix",), ("pix", fast), ("sys",)]
        if split:       # the output clock has the frequency and phase of the input's
            clocks.append("pix_o")
            edges = [e + ("pix_o",) if "pix" in e else e for e in edges]
        return dict(module=frag, inputs=i, outputs=o, clocks=clocks, edges=derived_domains(frag, edges))
    return f


def jobs(tier):
    J = []
    th = tier == "thorough"
    C = {0: "streams", 1: "locked", 2: "relocked", 4: "resolution cleared"}
    for dev in ("xc7", "xc6"):
        for hdmi in (False, True):
            d = dict(S7=int(dev == "xc7"), HDMI=int(hdmi), NV=14700 if th else 4900)
            J.append(Job("%s-%s" % (dev, "hdmi" if hdmi else "dvi"), build(dev, hdmi), "hdmiin.cpp", sweep=True, covers=C, defines=d, threads=2, traces=1))
    J.append(Job("xc7-dvi-split", build("xc7", False, split=True), "hdmiin.cpp", sweep=True, covers=C, threads=2, traces=1,
                 defines=dict(S7=1, HDMI=0, SPLIT=1, NV=4900 if th else 490)))
    inv = ("clk", "data0", "data2")
    J.append(Job("xc7-dvi-inverted", build("xc7", False, inv=inv), "hdmiin.cpp", sweep=True, covers=C, threads=2, traces=1,
                 defines=dict(S7=1, HDMI=0, NV=4900 if th else 490, INVM=5)))
    for dev, hdmi in (("xc7", True), ("xc6", True), ("xc7", False)):
        J.append(Job("%s-%s-clocks" % (dev, "hdmi" if hdmi else "dvi"), build(dev, hdmi, own=True), "hdmiin.cpp", sweep=True, covers=C, threads=2, traces=1,
                     defines=dict(S7=int(dev == "xc7"), HDMI=int(hdmi), NV=4900 if th else 490, ASYNC=1)))
    C = {**C, 3: "frames captured"}
    for dev, hdmi, port, mode, w in (("xc7", False, (24, 64), "ycbcr422", 20), ("xc7", True, (20, 128), "rgb", 24), ("xc6", True, (24, 64), "ycbcr422", 24), ("xc6", False, (24, 64), "rgb", 20)):
        d = dict(S7=int(dev == "xc7"), HDMI=int(hdmi), NV=14700 if th else 4900, DRAM=1, DW=port[1], PXB=16 if mode == "ycbcr422" else 32, WIDTH=w)
        J.append(Job("%s-%s-%s-%d" % (dev, "hdmi" if hdmi else "dvi", mode, port[1]), build(dev, hdmi, port, mode), "hdmiin.cpp", sweep=True, covers=C, defines=d, threads=2, traces=1))
    return J
