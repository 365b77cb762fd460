from props.common import Job


def link():
    from migen import Module, ClockDomainsRenamer
    from litevideo.output.hdmi.encoder import Encoder
    from litevideo.input.decoding import Decoding
    m = Module()
    m.submodules.e = e = ClockDomainsRenamer("pix")(Encoder())
    m.submodules.d = d = Decoding()
    m.comb += [d.input.eq(e.out), d.valid_i.eq(1)]
    return dict(module=m, inputs=dict(d=e.d, c=e.c, de=e.de),
                outputs=dict(de=d.output.de, d=d.output.d, c=d.output.c, raw=d.output.raw), clocks=["sys", "pix"],
                edges=[("sys", "pix"), ("sys",), ("pix",)])


def dec():
    from litevideo.input.decoding import Decoding
    d = Decoding()
    return dict(module=d, inputs=dict(raw=d.input, valid=d.valid_i),
                outputs=dict(de=d.output.de, d=d.output.d, c=d.output.c, rawo=d.output.raw, valid_o=d.valid_o),
                clocks=["pix"], edges=[("pix",)])


COV = {0: "word compared", 1: "data word", 2: "high disparity reached"}


def jobs(tier):
    return [Job("link-triples", link, "encoder.cpp", sweep=True, threads=4, covers={0: "word compared"}, traces=2, defines=dict(LINK=1)),
            Job("link-clocks", link, "encoder.cpp", threads=2, covers=COV, defines=dict(LINK=1, ALPHA2=1, FAST=3)),
            Job("link-bfs", link, "encoder.cpp", threads=2, covers=COV, defines=dict(LINK=1, ALPHA2=1)),
            Job("decoder-pairs", dec, "decoding.cpp", sweep=True, threads=2, covers={0: "word compared"}, traces=2)]
