from props.common import Job


def build(nbits=None):
    def f():
        from litevideo.input.analysis import ResolutionDetection
        m = ResolutionDetection(nbits) if nbits else ResolutionDetection()
        return dict(module=m, inputs=dict(de=m.de, vsync=m.vsync, valid=m.valid_i), outputs=dict(hres=m._hres.status, vres=m._vres.status),
                    clocks=["sys", "pix"], edges=[("sys", "pix"), ("sys",), ("pix",)])
    return f


def jobs(tier):
    return [Job("resolution-small", build(), "resdet.cpp", sweep=True, covers={0: "frame measured", 1: "input lost in mid-frame"}, threads=4),
            Job("resolution-full", build(), "resdet.cpp", sweep=True, covers={0: "frame measured", 1: "input lost in mid-frame"}, threads=4, defines=dict(BIG=1), traces=1),
            Job("resolution-12bit", build(12), "resdet.cpp", sweep=True, covers={0: "frame measured", 1: "input lost in mid-frame"}, threads=2, defines=dict(BIG=1, NB=12), traces=1)] \
        + [Job("resolution-" + n.lower(), build(), "resdet.cpp", sweep=True, covers={0: "frame measured", 1: "input lost in mid-frame"}, threads=4, defines={n: 3}, traces=1) for n in ("FAST", "SLOW")]
