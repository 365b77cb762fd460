from props.common import Job, stream_spec

TECHNIQUE = "explicit-state model checking of the elaborated design (exhaustive input enumeration through the pipeline)"


def jobs(tier):
    from props import c06      # nothing lost under any schedule
    def mk(dw, cw):
        def f():
            from litevideo.csc.rgb2ycbcr import RGB2YCbCr
            return RGB2YCbCr(dw, dw, cw)
        return stream_spec(f, ["r", "g", "b"], ["y", "cb", "cr"])
    return [Job("rgb2ycbcr-%d-c%d" % (dw, cw), mk(dw, cw), "pipe.cpp", sweep=True, threads=th, covers={0: "pixel checked"},
                defines=dict(UNIT='"u_csc.hpp"', U_RGB2YCBCR=1, DW=dw, CW=cw))
            for dw, cw, th in ((8, 8, 8), (6, 8, 1), (5, 10, 1), (8, 6, 4), (8, 10, 4), (7, 12, 2), (10, 10, 8))] + c06.jobs(tier, ['rgb2ycbcr'])
