from props.common import Job, stream_spec
TECHNIQUE = "explicit-state model checking of the elaborated design (exhaustive operand-pair enumeration through the pipeline)"


def jobs(tier):
    from props import c06      # nothing lost under any schedule
    def f():
        from litevideo.float_arithmetic.floatadd import FloatAdd
        return FloatAdd()
    spec = stream_spec(f, ["in1", "in2"], ["out"])
    d = dict(UNIT='"u_float.hpp"', U_ADD=1)
    return [Job("floatadd-nonneg", spec, "pipe.cpp", sweep=True, threads=8, covers={0: "sum checked"}, defines=dict(d)),
            Job("floatadd-signed", spec, "pipe.cpp", sweep=True, threads=8, covers={0: "sum checked"}, defines=dict(d, SIGNED=1))] + c06.jobs(tier, ['floatadd'])
