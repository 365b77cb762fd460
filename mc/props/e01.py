from props.common import Job, derived_domains, find, with_csrs
from props.l08 import hdmi_pads, lane
from props.prims import Clocks, Nets
from props.v06 import pads


def build(family, txmode, rxmode, dw, slots=2):
    def f():
        from migen import Cat, Module, Signal
        from litedram.common import LiteDRAMNativePort
        from litex.soc.interconnect.csr import AutoCSR
        from litevideo.input import HDMIIn
        from litevideo.output import VideoOut

        class Link(Module, AutoCSR):
            pass
        rp = LiteDRAMNativePort("read", 20, 16 if txmode == "ycbcr422" else 32, clock_domain="pix")
        wp = LiteDRAMNativePort("write", 24, dw)
        tp, ip = hdmi_pads(0, False), pads()
        link = Link()
        link.submodules.tx = VideoOut(family, tp, rp, mode=txmode, fifo_depth=64)
        link.submodules.rx = rx = HDMIIn(ip, wp, device=family, mode=rxmode, fifo_depth=64, n_dma_slots=slots)
        top, regs = with_csrs(link)
        frag = top.get_fragment()
        same = Nets(frag).same
        doms = {cd.name for cd in frag.clock_domains}
        i = dict(cready=rp.cmd.ready, rvalid=rp.rdata.valid, rdata=rp.rdata.data, wcready=wp.cmd.ready, wready=wp.wdata.ready)
        o = dict(cvalid=rp.cmd.valid, caddr=rp.cmd.addr, rready=rp.rdata.ready,
                 wcvalid=wp.cmd.valid, wcwe=wp.cmd.we, wcaddr=wp.cmd.addr, wvalid=wp.wdata.valid, wdata=wp.wdata.data, wwe=wp.wdata.we)
        n = dict(en="enable", base="base", len="length", hres="hres", hss="hsync_start", hse="hsync_end", hscan="hscan", vres="vres", vss="vsync_start",
                 vse="vsync_end", vscan="vscan")
        n = {a: "tx_core_initiator_" + b for a, b in n.items()}
        n.update(fs="rx_dma_frame_size", st0="rx_dma_slot0_status", ad0="rx_dma_slot0_address", 
                 st1="rx_dma_slot%d_status" % (slots - 1), ad1="rx_dma_slot%d_address" % (slots - 1))
        for a, b in n.items():
            i[a + "_re"], i[a + "_r"] = regs[b].re, regs[b].r
        o.update(st0=regs["rx_dma_slot0_status"].w, st1=regs[n["st1"]].w, ovf=regs["rx_frame_overflow"].w,
                 hres=rx.resdetection._hres.status, vres=rx.resdetection._vres.status, sync=rx.chansync._channels_synced.status,
                 cs=Cat(*[getattr(rx, "data%d_charsync" % k)._char_synced.status for k in range(3)]))
        of = "OSERDESE2" if family == "xc7" else "OSERDES2"
        for k in range(3):
            bits, swapped, _ = lane(frag, getattr(tp, "data%d_p" % k), of)
            o["l%d" % k] = Cat(*[~b if swapped else b for b in bits])
        for k in range(3):
            pad = getattr(ip, "data%d_p" % k)
            if family == "xc7":
                buf = [x for x in find(frag, "IBUFDS_DIFF_OUT") if same(x["I"], pad)][0]
                d = [x for x in find(frag, "IDELAYE2") if same(x["IDATAIN"], buf["O"])][0]
                s = [x for x in find(frag, "ISERDESE2") if same(x["DDLY"], d["DATAOUT"])][0]
                i["q%d" % k] = Cat(*[s["Q%d" % (8 - j)] for j in range(8)])
            else:
                buf = [x for x in find(frag, "IBUFDS") if same(x["I"], pad)][0]
                outs = [x["DATAOUT"] for x in find(frag, "IODELAY2") if same(x["IDATAIN"], buf["O"])]
                sd = [x for x in find(frag, "ISERDES2") if any(same(x["D"], z) for z in outs)]
                ms = [x for x in sd if "Q1" in x][0]
                sl = [x for x in sd if "Q1" not in x][0]
                i["q%d" % k] = Cat(sl["Q4"], ms["Q1"], ms["Q2"], ms["Q3"], ms["Q4"])
        if family == "xc7":
            for k, x in enumerate(find(frag, "MMCME2_ADV")):
                i["lock%d" % k] = x["LOCKED"]
            fast = "rx_pix1p25x" if "rx_pix1p25x" in doms else "pix1p25x"      # Migen renames what both sides have
            clocks = ["sys", "tx_pix", "rx_pix", fast]
            E = [("tx_pix",), (fast,), ("sys", "rx_pix"), (fast, "sys", "rx_pix"), ("tx_pix", fast), ("tx_pix", "sys", "rx_pix"), ("tx_pix", fast, "sys", "rx_pix")]
        else:
            for k, x in enumerate(find(frag, "BUFPLL")):
                i["lock%d" % k] = x["LOCK"]
            ck = {cd.name: cd for cd in frag.clock_domains}
            i["pixclk"] = ck["tx_pix"].clk
            clocks = ["sys", "tx_pix", "tx_pix2x", "rx_pix", "rx_pix2x"]
            a, b = "tx_pix2x", "rx_pix2x"
            E = [(a, b), (a, b, "tx_pix"), (a, b, "rx_pix", "sys"), (a, b, "rx_pix", "sys", "tx_pix")]
        missing = [c for c in clocks if c not in doms and c != "sys"]
        if missing:
            raise ValueError("clock domains %s are missing, there are %s" % (missing, sorted(doms)))
        return dict(module=frag, inputs=i, outputs=o, clocks=clocks, edges=derived_domains(frag, E))
    return f


def jobs(tier):
    J = []
    th = tier == "thorough"
    for fam, tm, rm, dw, n in (("xc7", "rgb", "rgb", 64, 4900), ("xc6", "rgb", "rgb", 64, 4900), ("xc7", "rgb", "ycbcr422", 64, 700), ("xc7", "ycbcr422", "rgb", 128, 700),
                               ("xc6", "ycbcr422", "ycbcr422", 128, 700)):
        n = 14700 if th else n
        d = dict(S7=int(fam == "xc7"), DW=dw, NV=n, STRIDE=1 if n >= 4900 else 4907 // n)
        if tm != "rgb":
            d["TXYCC"] = 1
        if rm != "rgb":
            d["RXYCC"] = 1
        J.append(Job("%s-%s-%s-%d" % (fam, tm, rm, dw), build(fam, tm, rm, dw, 3 if tm != rm else 2), "link.cpp", sweep=True, covers={0: "first picture", 1: "second picture", 2: "streams", 3: "clock lost in mid-picture"},
                     defines=d, threads=2, traces=1))
    return J
