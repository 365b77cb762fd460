from props.common import Job, stream_io
TECHNIQUE = "explicit-state model checking of the elaborated design: all valid/ready/reset schedules (BFS) plus exhaustive data values"


def build(*dw):
    from litevideo.csc.ycbcr422to444 import YCbCr422to444
    m = YCbCr422to444(*dw)
    i, o = stream_io(m, ["y", "cb_cr"], ["y", "cb", "cr"])
    i["reset"] = m.reset
    return dict(module=m, inputs=i, outputs=o, clocks=["sys"], edges=[("sys",)])


COV = {1: "pixel delivered", 2: "consumer stalls", 3: "frame end accepted"}


def jobs(tier):
    return [Job("up-schedules", build, "resample.cpp", threads=8, max_states=6000000, covers=COV, defines=dict(UP=1)),
            Job("up-reset", build, "resample.cpp", threads=8, max_depth=14, bounded=True, max_states=6000000, covers={**COV, 4: "reset"}, defines=dict(UP=1, HAS_RESET=1)),
            Job("up-values", build, "resample.cpp", sweep=True, covers={0: "pixel checked"}, defines=dict(UP=1)),
            Job("up-long", build, "resample.cpp", sweep=True, covers={0: "pixel checked"}, defines=dict(UP=1, LONG=1), threads=4, traces=1)] \
        + [Job("up-values-%d" % dw, lambda dw=dw: build(dw), "resample.cpp", sweep=True, covers={0: "pixel checked"}, threads=th, defines=dict(UP=1, DW=dw))
           for dw, th in ((6, 1), (10, 2), (12, 8))]
