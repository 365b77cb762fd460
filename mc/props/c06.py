from props.common import Job, stream_spec
from props import c05
TECHNIQUE = "explicit-state model checking of the elaborated design: breadth-first search over every valid/ready schedule"
COV = {1: "item delivered", 2: "consumer stalls", 3: "producer stalls"}


def jobs(tier, only=None):
    def rgb2ycbcr():
        from litevideo.csc.rgb2ycbcr import RGB2YCbCr
        return RGB2YCbCr()

    def ycbcr2rgb():
        from litevideo.csc.ycbcr2rgb import YCbCr2RGB
        return YCbCr2RGB()

    def floatadd():
        from litevideo.float_arithmetic.floatadd import FloatAdd
        return FloatAdd()

    def floatmult():
        from litevideo.float_arithmetic.floatmult import FloatMult
        return FloatMult()
    L = []
    csc = dict(UNIT='"u_csc.hpp"', DW=8, CW=8)
    L.append(("rgb2ycbcr", stream_spec(rgb2ycbcr, "rgb", ["y", "cb", "cr"]), dict(csc, U_RGB2YCBCR=1, FEW=1), 8))
    L.append(("ycbcr2rgb", stream_spec(ycbcr2rgb, ["y", "cb", "cr"], "rgb"), dict(csc, U_YCBCR2RGB=1), 1))
    fl = dict(UNIT='"u_float.hpp"')
    L.append(("floatadd", stream_spec(floatadd, ["in1", "in2"], ["out"]), dict(fl, U_ADD=1), 4))
    L.append(("floatmult", stream_spec(floatmult, ["in1", "in2"], ["out"]), dict(fl, U_MUL=1), 4))
    u = c05.units()
    for n in ("to_half", "to_pix"):
        L.append((n, u[n][0], u[n][1], 1))
    L = [x for x in L if only is None or x[0] in only]
    return [Job("pipe-" + n, s, "pipe.cpp", covers=COV, defines=dict(d, N_FL=4), threads=t, max_states=3000000) for n, s, d, t in L] + \
           [Job("long-" + n, s, "pipe.cpp", sweep=True, covers={0: "item checked"}, defines=dict(d, LONG=1), threads=4, traces=1) for n, s, d, t in L]
