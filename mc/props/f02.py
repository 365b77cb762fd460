from props.common import Job, stream_spec
TECHNIQUE = "explicit-state model checking of the elaborated design (exhaustive operand-pair enumeration through the pipeline)"


def jobs(tier):
    from props import c06      # nothing lost under any schedule
    def f():
        from litevideo.float_arithmetic.floatmult import FloatMult
        return FloatMult()
    spec = stream_spec(f, ["in1", "in2"], ["out"])
    d = dict(UNIT='"u_float.hpp"', U_MUL=1)
    return [Job("floatmult-nonneg", spec, "pipe.cpp", sweep=True, threads=8, covers={0: "product checked"}, defines=dict(d)),
            Job("floatmult-signed", spec, "pipe.cpp", sweep=True, threads=8, covers={0: "product checked"}, defines=dict(d, SIGNED=1))] + c06.jobs(tier, ['floatmult'])
