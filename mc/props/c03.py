from props.common import Job, stream_spec
TECHNIQUE = "explicit-state model checking of the elaborated design: all valid/ready schedules (BFS) plus exhaustive chroma pairs"


def f(*dw):
    from litevideo.csc.ycbcr444to422 import YCbCr444to422
    return YCbCr444to422(*dw)


COV = {1: "pixel delivered", 2: "consumer stalls", 3: "frame end accepted"}


def jobs(tier):
    spec = stream_spec(f, ["y", "cb", "cr"], ["y", "cb_cr"])
    return [Job("down-schedules", spec, "resample.cpp", threads=8, max_states=4000000, covers=COV, defines=dict(DOWN=1)),
            Job("down-bubbles", spec, "resample.cpp", threads=8, max_depth=14, max_states=4000000, covers=COV, defines=dict(DOWN=1, BUBBLES=1)),
            Job("down-values", spec, "resample.cpp", sweep=True, covers={0: "pixel checked"}, defines=dict(DOWN=1)),
            Job("down-long", spec, "resample.cpp", sweep=True, covers={0: "pixel checked"}, defines=dict(DOWN=1, LONG=1), threads=4, traces=1)] \
        + [Job("down-values-%d" % dw, stream_spec(lambda dw=dw: f(dw), ["y", "cb", "cr"], ["y", "cb_cr"]), "resample.cpp", sweep=True, covers={0: "pixel checked"}, threads=th,
               defines=dict(DOWN=1, DW=dw)) for dw, th in ((6, 1), (10, 2), (12, 8))]
