"""Translate an elaborated Migen design into C++ with the semantics of Migen's own Simulator.

The model checker explores the translated design; `conform.py` replays explored traces on the
real Migen Simulator, so the translation is kept bound to the code it was made from.

Semantics reproduced (migen/sim/core.py): unbounded integers inside expressions, truncation on
assignment, combinational targets return to their reset value and statements then run in order to a
fixpoint, synchronous statements read the old values and the last assignment wins.
"""
import collections
import collections.abc

from migen.fhdl.structure import (Signal, Constant, Cat, Replicate, If, Case, ClockSignal,
                                  ResetSignal, ClockDomain, _Value, _Operator, _Slice, _Part,
                                  _ArrayProxy, _Assign, _Fragment, wrap)
from migen.fhdl.module import Module
from migen.fhdl.bitcontainer import value_bits_sign
from migen.fhdl.specials import Memory, Tristate, Instance, _MemoryPort, WRITE_FIRST, NO_CHANGE
from migen.fhdl.tools import list_targets, lower_specials, insert_resets
from migen.genlib.resetsync import AsyncResetSynchronizer


# ---------------------------------------------------------------------------------------------
# Black boxes: vendor primitives are removed and recorded, tristates are cut at the pin.
# ---------------------------------------------------------------------------------------------

class _DummyARS:
    class Impl(Module):
        def __init__(self, cd, async_reset):
            self.comb += cd.rst.eq(async_reset)

    @staticmethod
    def lower(dr):
        return _DummyARS.Impl(dr.cd, dr.async_reset)


class _PinTristate:
    """The pin's level is an input of the design; o/oe are observed by the environment."""
    class Impl(Module):
        def __init__(self, t):
            if t.i is not None:
                self.comb += t.i.eq(t.target)

    @staticmethod
    def lower(t):
        return _PinTristate.Impl(t)


OVERRIDES = {AsyncResetSynchronizer: _DummyARS, Tristate: _PinTristate}


def black_boxes(fragment):
    """(instances, tristates) of a fragment."""
    inst = [s for s in sorted(fragment.specials, key=lambda x: x.duid) if isinstance(s, Instance)]
    tri = [s for s in sorted(fragment.specials, key=lambda x: x.duid) if isinstance(s, Tristate)]
    return inst, tri


def ports(instance):
    """name -> expression of an Instance."""
    r = {}
    for it in instance.items:
        if isinstance(it, (Instance.Input, Instance.Output, Instance.InOut)):
            r[it.name] = it.expr
    return r


def prepare(module, inputs, outputs, clocks):
    """Common to the C++ translation and the Simulator replay: returns the fragment, the input
    signals and the observed signals.  `inputs` and `outputs` map harness names to expressions."""
    f = module if isinstance(module, _Fragment) else module.get_fragment()
    for s in list(f.specials):
        if isinstance(s, Instance):
            f.specials.discard(s)
    driven = None
    ins = collections.OrderedDict()
    outs = collections.OrderedDict()
    for name, e in inputs.items():
        if isinstance(e, Signal):
            ins[name] = e
        else:
            s = Signal(value_bits_sign(e), name="in_" + name)
            f.comb.append(e.eq(s))
            ins[name] = s
    for name, e in outputs.items():
        e = wrap(e)
        s = Signal(value_bits_sign(e), name="out_" + name)
        f.comb.append(s.eq(e))
        outs[name] = s
    for cd in clocks:
        if cd not in f.clock_domains:
            f.clock_domains.append(ClockDomain(name=cd, reset_less=True))
    driven = set(list_targets(f.comb)) | set(list_targets([v for v in f.sync.values()]))
    for name, s in ins.items():
        if s in driven:
            raise ValueError("harness input %s is driven by the design" % name)
    return f, ins, outs


# ---------------------------------------------------------------------------------------------
# Expressions
# ---------------------------------------------------------------------------------------------

def _bits(lo, hi):
    n = 1
    while not (-(1 << (n - 1)) <= lo and hi < (1 << (n - 1))):
        n += 1
    return n


def ctype(lo, hi):
    n = max(lo.bit_length() + 1 if lo >= 0 else (-lo - 1).bit_length() + 1,
            hi.bit_length() + 1 if hi >= 0 else (-hi - 1).bit_length() + 1)
    if n <= 64:
        return "int64_t"
    if n <= 128:
        return "__int128"
    if n > 16384:
        raise NotImplementedError("expression of %d bits" % n)
    return "signed _BitInt(%d)" % (max(128, ((n + 127)//128)*128))


def literal(v):
    if -(1 << 62) <= v < (1 << 62):
        return "((int64_t)%dLL)" % v
    neg = v < 0
    v = abs(v)
    T = ctype(-v, v)
    parts = []
    sh = 0
    while v:
        parts.append("((%s)%dULL << %d)" % (T, v & 0xffffffff, sh))
        v >>= 32
        sh += 32
    e = "(" + " | ".join(parts) + ")"
    return "(-%s)" % e if neg else e


def storage_type(nbits, signed):
    for n in (8, 16, 32, 64):
        if nbits <= n:
            return ("int%d_t" if signed else "uint%d_t") % n
    # a multiple of 128: clang 18 disagrees with LLVM about the stride of arrays of other wide widths
    return ("signed" if signed else "unsigned") + " _BitInt(%d)" % (max(128, ((nbits + 127)//128)*128))


def srange(nbits, signed):
    if signed:
        return -(1 << (nbits - 1)), (1 << (nbits - 1)) - 1
    return 0, (1 << nbits) - 1


class MemRd(_Value):
    def __init__(self, mem, adr):
        _Value.__init__(self)
        self.mem = mem
        self.adr = adr

    @property
    def nbits(self):
        return self.mem.width


class MemWr:
    def __init__(self, mem, adr, m, M, data):
        self.mem, self.adr, self.m, self.M, self.data = mem, adr, m, M, data


class MemReset:
    def __init__(self, mem):
        self.mem = mem


class Translator:
    def __init__(self, module, inputs, outputs, clocks, edges, name="dut"):
        """edges: list of tuples of clock domains whose rising edges happen together."""
        self.f, self.ins, self.outs = prepare(module, inputs, outputs, clocks)
        self.edges = [tuple(e) for e in edges]
        self.mems = []
        self._lower_memories()
        f, _ = lower_specials(OVERRIDES, self.f)
        self.f = f
        if f.specials:
            raise ValueError("specials left: %r" % f.specials)
        f.clock_domains = self.f.clock_domains
        mem_sync = self.mem_sync
        insert_resets(f)
        for cd, l in mem_sync.items():
            f.sync.setdefault(cd, [])
            f.sync[cd] = list(f.sync[cd]) + l          # a reset does not clear memories
        self.names = {}
        self._analyse()

    # -- memories -----------------------------------------------------------------------------
    def _lower_memories(self):
        f = self.f
        self.mem_sync = collections.OrderedDict()
        keep = set()
        done = set()
        for mem in sorted(f.specials, key=lambda x: x.duid):
            if not isinstance(mem, Memory):
                keep.add(mem)
                continue
            self.mems.append(mem)
            for port in mem.ports:
                done.add(port)
                sync = f.sync.setdefault(port.clock.cd, [])
                rd = None
                if port.async_read:
                    f.comb.append(port.dat_r.eq(MemRd(mem, port.adr)))
                elif port.mode == WRITE_FIRST:
                    adr_reg = Signal.like(port.adr)
                    rd = adr_reg.eq(port.adr)
                    f.comb.append(port.dat_r.eq(MemRd(mem, adr_reg)))
                elif port.mode == NO_CHANGE and port.we is not None:
                    rd = If(~port.we, port.dat_r.eq(MemRd(mem, port.adr)))
                else:
                    rd = port.dat_r.eq(MemRd(mem, port.adr))
                if rd is not None:
                    sync.append(rd if port.re is None else If(port.re, rd))
                if port.we is not None:
                    ms = self.mem_sync.setdefault(port.clock.cd, [])
                    if port.we_granularity:
                        for i in range(mem.width//port.we_granularity):
                            m, M = i*port.we_granularity, (i + 1)*port.we_granularity
                            ms.append(("memwr", port.we[i], MemWr(mem, port.adr, m, M, port.dat_w[m:M])))
                    else:
                        ms.append(("memwr", port.we, MemWr(mem, port.adr, 0, mem.width, port.dat_w)))
        f.specials = keep - done

    # -- structure ----------------------------------------------------------------------------
    def _flatten(self, sl):
        for s in sl:
            if isinstance(s, tuple) and s and isinstance(s[0], str):
                yield s
            elif isinstance(s, (_Assign, If, Case)):
                yield s
            elif isinstance(s, collections.abc.Iterable):
                yield from self._flatten(s)
            else:
                raise NotImplementedError(s)

    def _targets(self, s):
        t = self._tcache.get(id(s))
        if t is None:
            if isinstance(s, tuple):
                t = frozenset()
            else:
                t = frozenset(self._targets_of(s))
            self._tcache[id(s)] = t
            self._keep.append(s)
        return t

    def _lhs_targets(self, n):
        if isinstance(n, Signal):
            yield n
        elif isinstance(n, (_Slice, _Part)):
            yield from self._lhs_targets(n.value)
        elif isinstance(n, Cat):
            for e in n.l:
                yield from self._lhs_targets(e)
        elif isinstance(n, _ArrayProxy):
            for c in n.choices:
                yield from self._lhs_targets(wrap(c))
        elif isinstance(n, ClockSignal):
            yield self.f.clock_domains[n.cd].clk
        elif isinstance(n, ResetSignal):
            rst = self.f.clock_domains[n.cd].rst
            if rst is None:
                raise ValueError("reset signal of resetless domain " + n.cd)
            yield rst
        else:
            raise NotImplementedError(n)

    def _targets_of(self, s):
        if isinstance(s, _Assign):
            yield from self._lhs_targets(s.l)
        elif isinstance(s, If):
            for x in self._flatten(s.t):
                yield from self._targets(x)
            for x in self._flatten(s.f):
                yield from self._targets(x)
        elif isinstance(s, Case):
            for v in s.cases.values():
                for x in self._flatten(v if isinstance(v, collections.abc.Iterable) else [v]):
                    yield from self._targets(x)

    def _analyse(self):
        self._tcache, self._keep = {}, []
        f = self.f
        self.comb = list(self._flatten(f.comb))
        self.sync = {cd: list(self._flatten(l)) for cd, l in f.sync.items()}
        self.comb_of = collections.OrderedDict()
        for s in self.comb:
            for t in self._targets(s):
                self.comb_of.setdefault(t, []).append(s)
        self.sync_of = {}
        self.sync_cd = {}
        for cd, l in self.sync.items():
            for s in l:
                for t in self._targets(s):
                    self.sync_of.setdefault(t, []).append((cd, s))
                    if self.sync_cd.setdefault(t, cd) != cd:
                        raise ValueError("signal driven from two domains: %r" % t)
        both = set(self.comb_of) & set(self.sync_of)
        if both:
            raise ValueError("driven by comb and sync: %r" % both)
        self.mem_wr = {}
        for cd, l in self.sync.items():
            for s in l:
                if isinstance(s, tuple):
                    mem = s[2].mem
                    self.mem_wr.setdefault(mem, []).append((cd, s))

        # emit lazily to learn dependencies, starting from the observed outputs
        self.body = {}          # comb target -> (code lines, reads)
        self.sreads = {}
        todo = list(self.outs.values())
        seen = set(todo)
        self.used_mems = []
        used_edges = self.used_edges = {cd for e in self.edges for cd in e}

        def need(reads):
            for r in reads:
                if r not in seen:
                    seen.add(r)
                    todo.append(r)
        while todo:
            s = todo.pop()
            if isinstance(s, Memory):
                self.used_mems.append(s)
                for cd, st in self.mem_wr.get(s, []):
                    if cd not in used_edges:
                        continue
                    g = Gen(self, None, None)
                    g.memstmt(st)
                    need(g.reads)
            elif s in self.comb_of:
                g = Gen(self, {s}, "comb")
                for st in self.comb_of[s]:
                    g.stmt(st)
                self.body[s] = (g.lines, set(g.reads))
                need(g.reads)
            elif s in self.sync_of and self.sync_cd[s] in used_edges:
                g = Gen(self, {s}, "sync")
                for cd, st in self.sync_of[s]:
                    g.stmt(st)
                need(g.reads)
        self.seen = seen
        sig = lambda s: isinstance(s, Signal)
        self.regs = sorted((s for s in seen if sig(s) and s in self.sync_of
                            and self.sync_cd[s] in used_edges), key=lambda s: s.duid)
        self.wires = sorted((s for s in seen if sig(s) and s in self.comb_of), key=lambda s: s.duid)
        insigs = set(self.ins.values())
        self.consts = sorted((s for s in seen if sig(s) and s not in self.comb_of
                              and s not in insigs and s not in set(self.regs)), key=lambda s: s.duid)
        self.used_mems.sort(key=lambda m: m.duid)
        self._order()

    def _order(self):
        # Tarjan SCC over comb targets
        import sys
        sys.setrecursionlimit(100000)
        idx, low, stack, on, out = {}, {}, [], set(), []
        cnt = [0]
        wires = set(self.wires)

        def strong(v):
            idx[v] = low[v] = cnt[0]
            cnt[0] += 1
            stack.append(v)
            on.add(v)
            for w in sorted((r for r in self.body[v][1] if r in wires), key=lambda s: s.duid):
                if w not in idx:
                    strong(w)
                    low[v] = min(low[v], low[w])
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = stack.pop()
                    on.discard(w)
                    comp.append(w)
                    if w is v:
                        break
                out.append(comp)
        for v in self.wires:
            if v not in idx:
                strong(v)
        self.sccs = out

    # -- names --------------------------------------------------------------------------------
    def nm(self, s):
        n = self.names.get(s)
        if n is None:
            if isinstance(s, Memory):
                base = "mem_%s" % (s.name_override or "m")
            else:
                base = s.name_override or (s.backtrace[-1][0] if s.backtrace else "s") or "s"
            base = "".join(c if c.isalnum() else "_" for c in str(base))
            n = "s%d_%s" % (len(self.names), base)
            self.names[s] = n
        return n

    def ref(self, s):
        if isinstance(s, Memory):
            return "r." + self.nm(s)
        if s in self._insig:
            n = "i." + self._insig[s]
            # the harness may drive more bits than the port has
            if s.signed or s.nbits in (8, 16, 32, 64) or s.nbits > 64:
                return n
            return "(%s & %s)" % (n, literal((1 << s.nbits) - 1))
        if s in self.comb_of:
            return "w." + self.nm(s)
        if self.is_reg(s):
            return "r." + self.nm(s)
        return literal(s.reset.value)

    def is_reg(self, s):
        return s in self.sync_of and self.sync_cd[s] in self.used_edges

    @property
    def _insig(self):
        d = self.__dict__.get("_insig_d")
        if d is None:
            d = {s: n for n, s in self.ins.items()}
            self.__dict__["_insig_d"] = d
        return d

    # -- C++ ----------------------------------------------------------------------------------
    def cxx(self):
        o = []
        w = o.append
        w("// generated by fhdl2c.py from the elaborated design; do not edit")

        def fields(sigs, nm):
            items = [(storage_type(s.nbits, s.signed), nm(s), s) for s in sigs]
            def size(t):
                for n in (8, 16, 32, 64):
                    if "int%d_t" % n in t:
                        return n
                return 1000
            items.sort(key=lambda x: -size(x[0]))
            return items
        w("struct Regs {")
        for m in sorted(self.used_mems, key=lambda m: -m.width):
            w("  %s %s[%d];" % (storage_type(m.width, False), self.nm(m), m.depth))
        for t, n, s in fields(self.regs, self.nm):
            w("  %s %s;" % (t, n))
        w("  uint8_t _pad_nonempty;")
        w("};")
        w("struct In {")
        for n, s in self.ins.items():
            w("  %s %s;" % (storage_type(s.nbits, s.signed), n))
        w("};")
        w("struct Out {")
        for n, s in self.outs.items():
            w("  %s %s;" % (storage_type(s.nbits, s.signed), n))
        w("};")
        w("struct Wires {")
        for t, n, s in fields(self.wires, self.nm):
            w("  %s %s;" % (t, n))
        w("};")
        # init
        w("static void dut_init(Regs& r) {")
        w("  memset(&r, 0, sizeof r);")
        for s in self.regs:
            if s.reset.value:
                w("  r.%s = %s;" % (self.nm(s), literal(s.reset.value)))
        for m in self.used_mems:
            w("  mem_init_%s(r);" % self.nm(m))
        w("}")
        pre = []
        for m in self.used_mems:
            n = self.nm(m)
            init = list(m.init or [])
            pre.append("static const %s init_%s[%d] = {%s};" % (
                storage_type(m.width, False), n, m.depth,
                ",".join(literal(v & ((1 << m.width) - 1)) if m.width > 62 else "%du" % (v & ((1 << m.width) - 1)) if m.width <= 32 else "%dull" % (v & ((1 << m.width) - 1))
                         for v in (init + [0]*m.depth)[:m.depth])))
            pre.append("static inline void mem_init_%s(Regs& r) { memcpy(r.%s, init_%s, sizeof r.%s); }" % (n, n, n, n))
        k = o.index("static void dut_init(Regs& r) {")
        o[k:k] = pre
        w("static void in_init(In& i) {")
        w("  memset(&i, 0, sizeof i);")
        for n, s in self.ins.items():
            if s.reset.value:
                w("  i.%s = %s;" % (n, literal(s.reset.value)))
        w("}")
        # comb
        w("static inline void comb_impl(const Regs& r, const In& i, Wires& w, Out& o) {")
        for comp in self.sccs:
            loop = len(comp) > 1 or comp[0] in self.body[comp[0]][1]
            if loop:
                for s in comp:
                    w("  w.%s = %s;" % (self.nm(s), literal(s.reset.value)))
                w("  for (int it_ = 0;; it_++) { bool ch_ = false; if (it_ > 64) { sim_error(\"comb loop\"); break; }")
            for s in comp:
                t = storage_type(s.nbits, s.signed)
                w("  { %s n_%s = %s;" % (t, self.nm(s), literal(s.reset.value)))
                for l in self.body[s][0]:
                    w("    " + l)
                if loop:
                    w("    if (w.%s != n_%s) ch_ = true;" % (self.nm(s), self.nm(s)))
                w("    w.%s = n_%s; }" % (self.nm(s), self.nm(s)))
            if loop:
                w("  if (!ch_) break; }")
        for n, s in self.outs.items():
            w("  o.%s = w.%s;" % (n, self.nm(s)))
        w("}")
        # edges
        regset = set(self.regs)
        for k, cds in enumerate(self.edges):
            w("static inline void edge_impl_%d(Regs& r, const In& i, const Wires& w) { // %s" % (k, " ".join(cds)))
            targets = [s for s in self.regs if self.sync_cd[s] in cds]
            g = Gen(self, set(targets), "sync")
            mw = []
            for cd in cds:
                for st in self.sync.get(cd, []):
                    if isinstance(st, tuple):
                        mem = st[2].mem
                        if mem in self.used_mems:
                            mw.append(st)
                    elif self._targets(st) & g.targets:
                        g.stmt(st)
            for s in targets:
                w("  %s n_%s = r.%s;" % (storage_type(s.nbits, s.signed), self.nm(s), self.nm(s)))
            for l in g.lines:
                w("  " + l)
            gm = Gen(self, None, None)
            for st in mw:
                gm.memstmt(st)
            for l in gm.pre + gm.lines:
                w("  " + l)
            for s in targets:
                w("  r.%s = n_%s;" % (self.nm(s), self.nm(s)))
            w("}")
        w("static inline void edge_impl(int k, Regs& r, const In& i, const Wires& w) { switch (k) {")
        for k in range(len(self.edges)):
            w("  case %d: edge_impl_%d(r, i, w); break;" % (k, k))
        w("} }")
        w("static const int N_EDGES = %d;" % len(self.edges))
        # trace printing
        w("static void print_in(FILE* f, const In& i) {")
        for n, s in self.ins.items():
            w("  print_val(f, i.%s, %d);" % (n, s.nbits))
        w("}")
        w("static void print_out(FILE* f, const Out& o) {")
        for n, s in self.outs.items():
            w("  print_val(f, o.%s, %d);" % (n, s.nbits))
        w("}")
        w("static const char* IN_NAMES = \"%s\";" % " ".join(self.ins))
        w("static const char* OUT_NAMES = \"%s\";" % " ".join(self.outs))
        return "\n".join(o) + "\n"

    def stats(self):
        return dict(reg_bits=sum(s.nbits for s in self.regs),
                    mem_bits=sum(m.width*m.depth for m in self.used_mems),
                    wires=len(self.wires), loops=sum(1 for c in self.sccs if len(c) > 1))


class Gen:
    """Code for statements; `targets` restricts which signals are assigned."""
    def __init__(self, tr, targets, kind):
        self.tr, self.targets, self.kind = tr, targets, kind
        self.lines = []
        self.pre = []
        self.reads = collections.OrderedDict()
        self.tmp = 0

    # expression -> (code, lo, hi)
    def e(self, n, post=False):
        tr = self.tr
        if isinstance(n, bool) or isinstance(n, int):
            return literal(int(n)), int(n), int(n)
        if isinstance(n, Constant):
            return literal(n.value), n.value, n.value
        if isinstance(n, Signal):
            return self.sig(n, post)
        if isinstance(n, ClockSignal):
            return self.sig(tr.f.clock_domains[n.cd].clk, post)
        if isinstance(n, ResetSignal):
            rst = tr.f.clock_domains[n.cd].rst
            if rst is None:
                if n.allow_reset_less:
                    return literal(0), 0, 0
                raise ValueError("reset signal of resetless domain " + n.cd)
            return self.sig(rst, post)
        if isinstance(n, _Operator):
            return self.op(n, post)
        if isinstance(n, _Slice):
            return self.bits(self.e(n.value, post), n.start, n.stop - n.start)
        if isinstance(n, _Part):
            v = self.e(n.value, post)
            o = self.e(n.offset, post)
            c = self.shr(v, o)
            return self.bits(c, 0, n.width)
        if isinstance(n, Cat):
            sh = 0
            parts = []
            for el in n.l:
                nb = len(el)
                c = self.bits(self.e(el, post), 0, nb)
                parts.append((c, sh))
                sh += nb
            if not parts:
                return literal(0), 0, 0
            hi = (1 << sh) - 1
            T = ctype(0, hi)
            code = " | ".join("((%s)%s << %d)" % (T, c[0], s) if s else "((%s)%s)" % (T, c[0])
                              for c, s in parts)
            return "(" + code + ")", 0, hi
        if isinstance(n, Replicate):
            nb = len(n.v)
            c = self.bits(self.e(n.v, post), 0, nb)
            hi = (1 << (nb*n.n)) - 1
            T = ctype(0, hi)
            if nb == 1:
                return "(%s ? (%s)%s : (%s)0)" % (c[0], T, literal(hi), T), 0, hi
            mul = sum(1 << (k*nb) for k in range(n.n))
            T = ctype(0, max(hi, mul))
            return "((%s)%s * (%s)%s)" % (T, c[0], T, literal(mul)), 0, hi
        if isinstance(n, _ArrayProxy):
            key = self.e(n.key, post)
            ch = [self.e(wrap(c), post) for c in n.choices]
            lo, hi = min(c[1] for c in ch), max(c[2] for c in ch)
            T = ctype(lo, hi)
            if key[1] < 0:
                raise NotImplementedError("negative array index")
            if len(ch) == 1:
                return ch[0]
            code = "([&]() -> %s { switch ((int64_t)%s) {" % (T, key[0])
            for k, c in enumerate(ch[:-1]):
                code += " case %d: return (%s)%s;" % (k, T, c[0])
            code += " default: return (%s)%s; } }())" % (T, ch[-1][0])
            return code, lo, hi
        if isinstance(n, MemRd):
            a = self.e(n.adr, post)
            self.reads[n.mem] = 1
            idx = self.clamp(a, n.mem.depth)
            lo, hi = srange(n.mem.width, False)
            return "((%s)%s[%s])" % (ctype(lo, hi), "r." + self.tr.nm(n.mem), idx), lo, hi
        raise NotImplementedError(n)

    def clamp(self, a, depth):
        if a[2] >= depth:
            return "clampi((int64_t)%s, %d)" % (a[0], depth - 1)
        return "(size_t)%s" % a[0]

    def sig(self, s, post):
        lo, hi = srange(s.nbits, s.signed)
        if post and self.targets is not None and s in self.targets:
            return "((%s)n_%s)" % (ctype(lo, hi), self.tr.nm(s)), lo, hi
        self.reads[s] = 1
        ref = self.tr.ref(s)
        if s not in self.tr._insig and s not in self.tr.comb_of and not self.tr.is_reg(s):
            v = s.reset.value
            return literal(v), v, v
        return "((%s)%s)" % (ctype(lo, hi), ref), lo, hi

    def bits(self, v, start, width):
        code, lo, hi = v
        mask = (1 << width) - 1
        if start == 0 and lo >= 0 and hi <= mask:
            return v
        T = ctype(min(lo, 0), max(hi, 0))
        if start:
            tb = int(T[T.index("(") + 1:-1]) if "BitInt" in T else (64 if T == "int64_t" else 128)
            if start >= tb:
                start = tb - 1
            code = "((%s)%s >> %d)" % (T, code, start)
            lo, hi = lo >> start, hi >> start
            if lo >= 0 and hi <= mask:
                return code, lo, hi
        if lo >= 0:
            return "(%s & %s)" % (code, literal(mask) if mask < (1 << 62) else "(%s)%s" % (ctype(0, mask), literal(mask))), 0, mask
        T2 = ctype(min(lo, 0), max(hi, mask))
        return "((%s)%s & (%s)%s)" % (T2, code, T2, literal(mask)), 0, mask

    def shr(self, a, b):
        c = [x >> y for x in a[1:] for y in (max(b[1], 0), max(b[2], 0))]
        T = ctype(a[1], a[2])
        if b[1] == b[2] and b[1] >= 0:
            return self.bitshift_const(a, b[1])
        return "shr<%s>((%s)%s, (int64_t)%s)" % (T, T, a[0], b[0]), min(c), max(c)

    def bitshift_const(self, a, k):
        T = ctype(a[1], a[2])
        tb = int(T[T.index("(") + 1:-1]) if "BitInt" in T else (64 if T == "int64_t" else 128)
        kk = min(k, tb - 1)
        return "((%s)%s >> %d)" % (T, a[0], kk), a[1] >> k, a[2] >> k

    def op(self, n, post):
        op = n.op
        o = [self.e(x, post) for x in n.operands]
        a = o[0]
        if op == "~":
            return "(~%s)" % a[0], ~a[2], ~a[1]
        if op == "-" and len(o) == 1:
            lo, hi = -a[2], -a[1]
            T = ctype(min(lo, a[1]), max(hi, a[2]))
            return "(-(%s)%s)" % (T, a[0]), lo, hi
        if op == "m":
            lo, hi = min(o[1][1], o[2][1]), max(o[1][2], o[2][2])
            T = ctype(lo, hi)
            return "(%s ? (%s)%s : (%s)%s)" % ("(%s != 0)" % a[0], T, o[1][0], T, o[2][0]), lo, hi
        b = o[1]
        if op in ("+", "-", "*"):
            if op == "+":
                lo, hi = a[1] + b[1], a[2] + b[2]
            elif op == "-":
                lo, hi = a[1] - b[2], a[2] - b[1]
            else:
                c = [x*y for x in a[1:] for y in b[1:]]
                lo, hi = min(c), max(c)
            T = ctype(min(lo, a[1], b[1]), max(hi, a[2], b[2]))
            return "((%s)%s %s (%s)%s)" % (T, a[0], op, T, b[0]), lo, hi
        if op == ">>>":
            return self.shr(a, b)
        if op == "<<<":
            bl, bh = max(b[1], 0), max(b[2], 0)
            c = [x << y for x in a[1:] for y in (bl, bh)]
            lo, hi = min(c), max(c)
            T = ctype(min(lo, a[1]), max(hi, a[2]))
            if b[1] == b[2] and b[1] >= 0:
                if lo == hi:
                    return literal(lo), lo, hi
                return "((%s)%s << %d)" % (T, a[0], b[1]), lo, hi
            return "shl<%s>((%s)%s, (int64_t)%s)" % (T, T, a[0], b[0]), lo, hi
        T = ctype(min(a[1], b[1]), max(a[2], b[2]))
        if op in ("&", "|", "^"):
            if op == "&" and (a[1] >= 0 or b[1] >= 0):
                lo = 0
                hi = min(x[2] for x in (a, b) if x[1] >= 0)
            elif a[1] >= 0 and b[1] >= 0:
                lo, hi = 0, (1 << max(a[2].bit_length(), b[2].bit_length())) - 1
            else:
                k = max(_bits(a[1], a[2]), _bits(b[1], b[2]))
                lo, hi = -(1 << (k - 1)), (1 << (k - 1)) - 1
            return "((%s)%s %s (%s)%s)" % (T, a[0], op, T, b[0]), lo, hi
        if op in ("<", "<=", "==", "!=", ">", ">="):
            return "((int64_t)((%s)%s %s (%s)%s))" % (T, a[0], op, T, b[0]), 0, 1
        raise NotImplementedError(op)

    # statements
    def emit(self, l):
        self.lines.append(l)

    def stmts(self, sl):
        for s in self.tr._flatten(sl if isinstance(sl, collections.abc.Iterable) else [sl]):
            if self.tr._targets(s) & self.targets:
                self.stmt(s)

    def cond(self, c):
        e = self.e(c)
        nb = len(c)
        b = self.bits(e, 0, nb)
        return "%s != 0" % b[0]

    def stmt(self, s):
        if isinstance(s, _Assign):
            v = self.e(s.r)
            self.assign(s.l, v)
        elif isinstance(s, If):
            self.emit("if (%s) {" % self.cond(s.cond))
            self.stmts(s.t)
            if s.f:
                self.emit("} else {")
                self.stmts(s.f)
            self.emit("}")
        elif isinstance(s, Case):
            t = self.e(s.test)
            nbits, signed = value_bits_sign(s.test)
            t = self.trunc(t, nbits, signed)
            if ctype(t[1], t[2]) != "int64_t":
                raise NotImplementedError("wide case")
            self.emit("switch ((int64_t)%s) {" % t[0])
            seen = set()
            for k, v in s.cases.items():
                if isinstance(k, Constant):
                    if k.value in seen:
                        continue
                    seen.add(k.value)
                    self.emit("case %d: {" % k.value)
                else:
                    self.emit("default: {")
                self.stmts(v)
                self.emit("break; }")
            self.emit("}")
        else:
            raise NotImplementedError(s)

    def trunc(self, v, nbits, signed):
        lo, hi = srange(nbits, signed)
        if v[1] >= lo and v[2] <= hi:
            return v
        if not signed:
            return self.bits(v, 0, nbits)
        T = ctype(min(v[1], lo), max(v[2], hi))
        tb = int(T[T.index("(") + 1:-1]) if "BitInt" in T else (64 if T == "int64_t" else 128)
        U = {"int64_t": "uint64_t", "__int128": "unsigned __int128"}.get(T, T.replace("signed", "unsigned"))
        sh = tb - nbits
        return "((%s)((%s)(%s)%s << %d) >> %d)" % (T, U, T, v[0], sh, sh), lo, hi

    def var(self, v):
        self.tmp += 1
        n = "t_%d" % self.tmp
        self.emit("const %s %s = %s;" % (ctype(v[1], v[2]), n, v[0]))
        return n, v[1], v[2]

    def assign(self, n, v):
        if not any(t in self.targets for t in self.tr._lhs_targets(n)):
            return
        if isinstance(n, ClockSignal):
            n = self.tr.f.clock_domains[n.cd].clk
        elif isinstance(n, ResetSignal):
            n = self.tr.f.clock_domains[n.cd].rst
        if isinstance(n, Signal):
            t = self.trunc(v, n.nbits, n.signed)
            self.emit("n_%s = (%s)%s;" % (self.tr.nm(n), storage_type(n.nbits, n.signed), t[0]))
        elif isinstance(n, Cat):
            self.emit("{")
            v = self.var(v)
            sh = 0
            for el in n.l:
                nb = len(el)
                self.assign(el, self.bits(v, sh, nb))
                sh += nb
            self.emit("}")
        elif isinstance(n, _Slice):
            w = n.stop - n.start
            full = self.e(n.value, True)
            vb = self.bits(v, 0, w)
            self.assign(n.value, self.insert(full, literal(n.start), n.start, vb, w))
        elif isinstance(n, _Part):
            full = self.e(n.value, True)
            off = self.e(n.offset, True)
            vb = self.bits(v, 0, n.width)
            m = (1 << n.width) - 1
            top = (m << off[2])
            T = ctype(min(full[1], 0), max(full[2], top))
            mm = "shl<%s>((%s)%s, (int64_t)%s)" % (T, T, literal(m), off[0])
            vv = "shl<%s>((%s)%s, (int64_t)%s)" % (T, T, vb[0], off[0])
            hi = (1 << max(full[2].bit_length(), top.bit_length())) - 1
            self.assign(n.value, ("((((%s)%s) & ~%s) | %s)" % (T, full[0], mm, vv), min(full[1], 0), hi))
        elif isinstance(n, _ArrayProxy):
            key = self.e(n.key)
            ch = [wrap(c) for c in n.choices]
            self.emit("switch ((int64_t)%s) {" % key[0])
            for k, c in enumerate(ch):
                self.emit(("case %d: {" % k) if k < len(ch) - 1 else "default: {")
                self.assign(c, v)
                self.emit("break; }")
            self.emit("}")
        else:
            raise NotImplementedError(n)

    def insert(self, full, _l, start, vb, w):
        m = ((1 << w) - 1) << start
        top = m
        lo = min(full[1], 0)
        hi = (1 << max(full[2].bit_length(), top.bit_length())) - 1
        T = ctype(lo, hi)
        return "((((%s)%s) & ~(%s)%s) | ((%s)%s << %d))" % (T, full[0], T, literal(m), T, vb[0], start), lo, hi

    def memstmt(self, st):
        _, we, wr = st
        mem = wr.mem
        n = self.tr.nm(mem)
        T = storage_type(mem.width, False)
        k = len(self.pre)
        a = self.e(wr.adr)
        d = self.e(wr.data)
        d = self.bits(d, 0, wr.M - wr.m)
        self.pre.append("const bool we%d_%s = %s;" % (k, n, self.cond(we)))
        self.pre.append("const size_t wa%d_%s = %s;" % (k, n, self.clamp(a, mem.depth)))
        self.pre.append("const %s wd%d_%s = (%s)%s;" % (T, k, n, T, d[0]))
        if wr.m == 0 and wr.M == mem.width:
            self.emit("if (we%d_%s) r.%s[wa%d_%s] = wd%d_%s;" % (k, n, n, k, n, k, n))
        else:
            m = ((1 << (wr.M - wr.m)) - 1) << wr.m
            self.emit("if (we%d_%s) r.%s[wa%d_%s] = (%s)((r.%s[wa%d_%s] & ~(%s)%s) | ((%s)wd%d_%s << %d));" % (
                k, n, n, k, n, T, n, k, n, T, literal(m), T, k, n, wr.m))
