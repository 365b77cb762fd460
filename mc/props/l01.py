from props.common import Job
TECHNIQUE = "explicit-state model checking of the elaborated encoder: BFS to closure over a word alphabet, plus every 3-word sequence"


def build():
    from litevideo.output.hdmi.encoder import Encoder
    m = Encoder()
    return dict(module=m, inputs=dict(d=m.d, c=m.c, de=m.de), outputs=dict(out=m.out), clocks=["sys"], edges=[("sys",)])


COV = {0: "word compared", 1: "data word", 2: "high disparity reached"}


def jobs(tier):
    J = [Job("encoder-triples", build, "encoder.cpp", sweep=True, threads=8, covers={0: "word compared"}, traces=2),
         Job("encoder-bfs", build, "encoder.cpp", threads=8, covers=COV, max_states=20000000, defines=dict(ALPHA2=1) if tier == "thorough" else {})]
    return J
