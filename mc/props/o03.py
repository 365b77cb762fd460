from props.common import Job, find, with_csrs
from props.l08 import External, clock_pad, hdmi_pads, lane
from props.prims import Clocks
from props.o02 import MASK


def vout(family, mode, depth=64, vga=None):
    def f():
        from migen import Cat, Signal
        from litedram.common import LiteDRAMNativePort
        from litevideo.output import VideoOut
        dw = 16 if mode == "ycbcr422" else 32
        p = LiteDRAMNativePort("read", 16, dw, clock_domain="pix")
        if vga:
            class Pads:
                pass
            pads = Pads()
            pads.clk, pads.hsync_n, pads.vsync_n, pads.psave_n = Signal(), Signal(), Signal(), Signal()
            pads.r, pads.g, pads.b = Signal(vga[0]), Signal(vga[1]), Signal(vga[2])
        else:
            pads = hdmi_pads(0, False)
        e = External() if family == "xc6" and not vga and mode == "rgb" else None
        m = VideoOut(family, pads, p, mode=mode, fifo_depth=depth, external_clocking=e)
        top, regs = with_csrs(m)
        frag = top.get_fragment()
        i = dict(cready=p.cmd.ready, rvalid=p.rdata.valid, rdata=p.rdata.data)
        n = dict(en="enable", base="base", len="length", hres="hres", hss="hsync_start", hse="hsync_end", hscan="hscan", vres="vres", vss="vsync_start",
                 vse="vsync_end", vscan="vscan")
        for a, b in n.items():
            i[a + "_re"], i[a + "_r"] = regs["core_initiator_" + b].re, regs["core_initiator_" + b].r
        o = dict(cvalid=p.cmd.valid, caddr=p.cmd.addr, rready=p.rdata.ready)
        if vga:
            o.update(hsn=pads.hsync_n, vsn=pads.vsync_n, psn=pads.psave_n, r=pads.r, g=pads.g, b=pads.b)
            ck, d = Clocks(frag), {}
            if family == "xc7":
                i["locked"] = find(frag, "MMCME2_ADV")[0]["LOCKED"]
                i["pixclk"], o["padclk"] = ck.cds["pix"].clk, pads.clk
            else:
                bad, ports = clock_pad(frag, ck, pads.clk)
                o.update(ports)
                if bad:
                    d["SET_WRONG"] = '"%s"' % bad
            clocks = ["sys", "pix"]
            edges = [("sys",), ("pix",), ("sys", "pix")]
            return dict(module=frag, inputs=i, outputs=o, clocks=clocks, edges=edges, defines=d)
        of = "OSERDESE2" if family == "xc7" else "OSERDES2"
        for k in range(3):
            bits, swapped, _ = lane(frag, getattr(pads, "data%d_p" % k), of)
            o["l%d" % k] = Cat(*[~b if swapped else b for b in bits])
        if family == "xc7":
            i["locked"] = find(frag, "MMCME2_ADV")[0]["LOCKED"]
            return dict(module=frag, inputs=i, outputs=o, clocks=["sys", "pix"], edges=[("sys",), ("pix",), ("sys", "pix")])
        ck = Clocks(frag, [(e.pll2_pix, "pll", 1)] if e else None)
        i["pixclk"] = ck.cds["pix"].clk
        if e and (ck.rate(ck.cds["pix"].clk) or ["pll"])[0] != "pll":
            raise ValueError("the external clock is not used")
        return dict(module=frag, inputs=i, outputs=o, clocks=["sys", "pix", "pix2x"], edges=[("sys",), ("pix2x",), ("pix", "pix2x"), ("sys", "pix", "pix2x")])
    return f


def jobs(tier):
    J = []
    C = {0: "pixel", 1: "frame completed", 2: "setting changed"}
    for fam in ("xc7", "xc6"):
        for mode in ("rgb", "raw", "ycbcr422"):
            d = {"NV": 16200 if tier == "thorough" else 1620, "DW": 16 if mode == "ycbcr422" else 32, mode.upper(): 1}
            if fam == "xc7":
                d["S7"] = 1
                C = {**C, 3: "clock lost"}
            else:
                C.pop(3, 0)
            J.append(Job("%s-%s" % (fam, mode), vout(fam, mode), "videoout.cpp", sweep=True, covers=C, defines=d, traces=2))
            if mode != "raw":
                for bits in ((8, 8, 8), (4, 6, 5)):
                    J.append(Job("%s-vga-%s-%d%d%d" % ((fam, mode) + bits), vout(fam, mode, vga=bits), "videoout.cpp", sweep=True, covers=C,
                                 defines=dict(d, VGA=1, RB=bits[0], GB=bits[1], BB=bits[2]), traces=1))
    return J
