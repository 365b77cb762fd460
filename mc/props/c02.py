from props.common import Job, stream_spec

TECHNIQUE = "explicit-state model checking of the elaborated design (exhaustive input enumeration through the pipeline)"


def jobs(tier):
    from props import c06      # nothing lost under any schedule
    def mk(dw, cw):
        def f():
            from litevideo.csc.ycbcr2rgb import YCbCr2RGB
            return YCbCr2RGB() if (dw, cw) == (8, 8) else YCbCr2RGB(dw, dw, cw)
        return stream_spec(f, ["y", "cb", "cr"], ["r", "g", "b"])
    cfg = [(8, 8, 8), (6, 8, 1), (5, 10, 1), (8, 6, 8), (8, 10, 4), (7, 12, 2), (10, 10, 8)]
    return [Job("ycbcr2rgb-%d-c%d" % (dw, cw), mk(dw, cw), "pipe.cpp", sweep=True, threads=th, covers={0: "pixel checked"},
                defines=dict(UNIT='"u_csc.hpp"', U_YCBCR2RGB=1, DW=dw, CW=cw))
            for dw, cw, th in cfg] + c06.jobs(tier, ['ycbcr2rgb'])
