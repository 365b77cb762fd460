from props.common import Job


def build(mode, ww, depth, rst=False):
    def f():
        from migen import ClockDomain, Module
        from litevideo.input.analysis import FrameExtraction
        top = Module()
        top.submodules.dut = m = FrameExtraction(ww, depth, mode)
        i = dict(de=m.de, vsync=m.vsync, valid=m.valid_i, r=m.r, g=m.g, b=m.b, ready=m.frame.ready, clear=m._overflow.re)
        if rst:                                             # the pixel clock's domain is reset while its clock is not locked
            top.clock_domains.cd_pix = ClockDomain("pix")
            i["rst"] = top.cd_pix.rst
        return dict(module=top, inputs=i, outputs=dict(valid=m.frame.valid, sof=m.frame.sof, pixels=m.frame.pixels, busy=m.busy, ovf=m._overflow.w),
                    clocks=["sys", "pix"], edges=[("pix",), ("sys",), ("pix", "sys")])
    return f


def jobs(tier):
    J = []
    for mode, ww in (("ycbcr422", 32), ("ycbcr422", 64), ("ycbcr422", 128), ("ycbcr422", 256), ("rgb", 64), ("rgb", 128), ("rgb", 256), ("rgb", 512)):
        d = dict(WW=ww)
        if mode != "rgb":
            d["YCBCR"] = 1
        J.append(Job("%s-%d" % (mode, ww), build(mode, ww, 16), "frames.cpp", sweep=True, covers={0: "schedules"}, defines=d, threads=2, traces=2))
    for mode, ww in (("ycbcr422", 64), ("rgb", 64)):
        d = dict(WW=ww, OVF=1, FD=8)
        if mode != "rgb":
            d["YCBCR"] = 1
        J.append(Job("overflow-%s-%d" % (mode, ww), build(mode, ww, 8), "frames.cpp", sweep=True, covers={0: "schedules", 1: "words lost", 2: "overflow read"}, defines=d, traces=2))
        del d["OVF"]
        J.append(Job("relock-%s-%d" % (mode, ww), build(mode, ww, 16, True), "frames.cpp", sweep=True, covers={0: "schedules", 1: "clock lost"}, defines=dict(d, RELOCK=1), traces=2))
    J.append(Job("crossing", build("rgb", 64, 4), "frames.cpp", covers={0: "word", 1: "sof", 2: "full"}, defines=dict(WW=64, FD=4), threads=8,
                 max_states=4000000 if tier == "quick" else 20000000))
    return J
