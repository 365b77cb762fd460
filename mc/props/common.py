"""Shared by the property modules: job construction from public constructors and ports only."""
from run import Job  # noqa: F401


def stream_io(mod, sink_fields, source_fields, rename_in=None, rename_out=None):
    """inputs/outputs of a valid/ready unit, under the names the harnesses use."""
    ins = {"valid": mod.sink.valid, "first": mod.sink.first, "last": mod.sink.last, "ready": mod.source.ready}
    outs = {"ready": mod.sink.ready, "valid": mod.source.valid, "first": mod.source.first, "last": mod.source.last}
    for n in sink_fields:
        ins[(rename_in or {}).get(n, n)] = getattr(mod.sink, n)
    for n in source_fields:
        outs[(rename_out or {}).get(n, n)] = getattr(mod.source, n)
    return ins, outs


def stream_spec(factory, sink_fields, source_fields, **kw):
    def build():
        m = factory()
        i, o = stream_io(m, sink_fields, source_fields, **kw)
        return dict(module=m, inputs=i, outputs=o, clocks=["sys"], edges=[("sys",)])
    return build


def derived_domains(frag, edges):
    """Adds to every edge the clock domains whose clock is, combinationally, one of the edge's clocks."""
    from migen.fhdl.structure import ClockSignal, _Assign
    alias = {}
    clk = {id(cd.clk): cd.name for cd in frag.clock_domains}
    for st in frag.comb:
        if isinstance(st, _Assign) and id(st.l) in clk:
            r = st.r
            if isinstance(r, ClockSignal):
                alias[clk[id(st.l)]] = r.cd
            elif id(r) in clk:
                alias[clk[id(st.l)]] = clk[id(r)]
    def root(n):
        seen = set()
        while n in alias and n not in seen:
            seen.add(n)
            n = alias[n]
        return n
    names = sorted(cd.name for cd in frag.clock_domains)
    out = []
    for e in edges:
        x = list(e)
        for n in names:
            if n not in x and root(n) in e:
                x.append(n)
        out.append(tuple(x))
    return out


def find(frag, of):
    from fhdl2c import black_boxes, ports
    return [ports(i) for i in black_boxes(frag)[0] if i.of == of]


def same(a, b):
    return a is b


def with_reset(frag, names):
    """Clock domains that have a (never asserted) reset, for designs that read it."""
    from migen.fhdl.structure import ClockDomain
    have = {cd.name for cd in frag.clock_domains}
    for n in names:
        if n not in have:
            frag.clock_domains.append(ClockDomain(name=n))
    return frag


def with_csrs(m, busword=32):
    """The module with its CSRs finalized as on a CSR bus: returns (fragment owner, {name: simple CSR})."""
    from migen import Module
    from litex.soc.interconnect.csr import CSR
    top = Module()
    top.submodules.dut = m
    regs = {}
    for c in m.get_csrs():
        if isinstance(c, CSR):
            regs[c.name] = c
        else:
            c.finalize(busword, "big")
            top.submodules += c
            s = c.get_simple_csrs()
            for k, x in enumerate(s):
                regs[c.name if len(s) == 1 else c.name + str(len(s) - 1 - k)] = x
    return top, regs
