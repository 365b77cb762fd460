from props.common import Job
from props import v06


def build(bits, update=True):
    def f():
        from litevideo.input.wer import WER
        m = WER(period_bits=bits)
        return dict(module=m, inputs=dict(data=m.data, update=m._update.re), outputs=dict(value=m._value.status),
                    clocks=["sys", "pix"], edges=[("sys", "pix"), ("sys",), ("pix",)])
    return f


def jobs(tier):
    J = [Job("receiver-" + d, v06.build(d, False, wer=True), "werin.cpp", sweep=True, threads=3, defines=dict(S7=int(d == "xc7")), covers={0: "period counted"}, traces=1)
         for d in ("xc7", "xc6")]
    return J + [Job("wer-words", build(4), "wer.cpp", sweep=True, threads=2, defines=dict(PB=4),
                covers={0: "word counted", 1: "error word", 2: "legal word", 3: "single request"}),
            Job("wer-full", build(24), "wer.cpp", sweep=True, threads=3, defines=dict(PB=24, FULL=1), covers={0: "period counted"}, traces=1),
            Job("wer-histories", build(3), "wer.cpp", threads=6, defines=dict(PB=3), max_states=6000000,
                covers={0: "word", 1: "all words in error", 2: "no word in error"})] \
        + [Job("wer-" + n.lower(), build(4), "wer.cpp", sweep=True, threads=2, defines={"PB": 4, n: 3},
               covers={0: "word counted", 1: "error word", 2: "legal word", 3: "single request"}) for n in ("FAST", "SLOW")]
