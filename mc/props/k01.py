from props.common import Job, find, with_csrs, with_reset
from props.l08 import hdmi_pads
from props.prims import Clocks, faults, ratios, undriven
from props.v06 import pads as in_pads


def drp(kind, second=False):
    """kind: s6in, s7in, s7split, s6out, s7out."""
    def f():
        from migen import Cat
        top = None
        if second or kind == "s6in":                     # as a part of the receiver
            from litevideo.input import HDMIIn
            h = HDMIIn(in_pads(), device="xc6" if kind == "s6in" else "xc7", split_mmcm=second)
            m = h.clocking
            top, regs = with_csrs(h)
            regs = {k[9:]: x for k, x in regs.items() if k.startswith("clocking_")}
        elif kind in ("s7in", "s7split"):
            from litevideo.input.clocking import S7Clocking
            m = S7Clocking(in_pads(), 148.5e6, kind == "s7split")
        elif kind == "s6out":
            from litevideo.output.hdmi.s6 import S6HDMIOutClocking
            m = S6HDMIOutClocking(hdmi_pads(), None)
        else:
            from litevideo.output.hdmi.s7 import S7HDMIOutClocking
            m = S7HDMIOutClocking(hdmi_pads(), None)
        if top is None:
            top, regs = with_csrs(m)
        frag = with_reset(top.get_fragment(), ["sys"])
        of = "PLLE2_ADV" if second else "PLL_ADV" if kind[:2] == "s6" else "MMCME2_ADV"
        p = "pll" if kind[:2] == "s6" else "mmcm"
        a, d = (("_o", "dat_o_r") if second else ("", "dat_r"))
        regs[p + "_read" + a]                            # (a missing register shows first)
        x = find(frag, of)[0]
        i = dict(rd=regs[p + "_read" + a].re, wr=regs[p + "_write" + a].re, adr_re=regs[p + "_adr"].re, adr_r=regs[p + "_adr"].r,
                 dw_re=regs[p + "_dat_w"].re, dw_r=regs[p + "_dat_w"].r, rst_re=regs[p + "_reset"].re, rst_r=regs[p + "_reset"].r,
                 drdy=x["DRDY"], dout=x["DO"])
        o = dict(den=x["DEN"], dwe=x["DWE"], daddr=x["DADDR"], di=x["DI"], prst=x["RST"], ready=regs[p + "_drdy" + a].w, dat=regs[p + "_" + d].w)
        if kind == "s6in":
            i["locked"] = find(frag, "BUFPLL")[0]["LOCK"]
        elif kind == "s6out":
            i["locked"] = find(frag, "DCM_CLKGEN")[0]["LOCKED"]
        else:
            i["locked"] = find(frag, "MMCME2_ADV")[0]["LOCKED"]
        if kind[2:] in ("in", "split"):
            o["lock_st"] = regs["locked"].w
        ck = Clocks(frag)
        rst = lambda *names: Cat(*[ck.cds[n].rst for n in names])
        if kind == "s7out":
            o["pixrst"] = rst("pix")
        elif kind == "s6in":
            o["pixrst"] = rst("pix", "pix2x")
        elif kind != "s6out":
            o["pixrst"] = rst("pix", "pix1p25x")
            o["outrst"] = rst("pix_o")
        if kind == "s7split":
            i["locked2"] = find(frag, "PLLE2_ADV")[0]["LOCKED"]
        want = [("pix2x", "pix", 2), ("pix10x", "pix", 10), ("pix5x", "pix", 5), ("pix1p25x", "pix", "5/4"), ("pix_o", "pix", 1), ("pix5x_o", "pix", 5)]
        d = ratios(ck, want)
        bad = faults(ck, frag)
        if bad:
            d.setdefault("RATIO_FAIL", '"%s"' % bad)
        dead = undriven(ck, frag, sorted({x for w in want for x in w[:2]}))
        if dead:
            d.setdefault("RATIO_FAIL", '"clock %s has no source"' % dead)
        if kind[2:] != "out" and not d:                  # the pixel clock is the clock received
            r = ck.ratio(ck.cds["pix"].clk, m.clk_input)
            if r not in (None, 1):
                d = {"RATIO_FAIL": '"the pixel clock runs at %s times the received clock"' % r}
        return dict(module=frag, inputs=i, outputs=o, clocks=["sys"], edges=[("sys",)], defines=d)
    return f


def jobs(tier):
    J = []
    for kind, second in (("s6in", False), ("s7in", False), ("s7split", False), ("s7split", True), ("s6out", False), ("s7out", False)):
        d = dict(ADRMASK=0x1f if kind[:2] == "s6" else 0x7f, RST0=int("out" not in kind))
        if "out" not in kind:
            d["LOCKED"] = 1
        if kind == "s6out":
            d["PIXLOCK"] = 1
        d["PIXRST"] = {"s6in": 3, "s7in": 3, "s7split": 3, "s7out": 1}.get(kind, 0)
        d["OUTRST"] = int(kind in ("s7in", "s7split"))
        d["SPLIT"] = int(kind == "s7split")
        J.append(Job(kind + ("-second" if second else ""), drp(kind, second), "drp.cpp", covers={0: "answered", 1: "answer and request at once"}, defines=d, traces=4))
    return J
