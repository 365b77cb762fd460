"""What the vendor primitives of a fragment are set to: clock frequencies (relative to the root of the clock tree),
serialiser widths.  The harnesses' models of the primitives take their numbers from here."""
from fractions import Fraction

from fhdl2c import black_boxes, ports


def params(instance):
    from migen.fhdl.specials import Instance
    return {it.name: getattr(it.value, "value", it.value) for it in instance.items if isinstance(it, Instance.Parameter)}


def boxes(frag, of):
    return [(params(i), ports(i)) for i in black_boxes(frag)[0] if i.of == of]


def number(v):
    return Fraction(getattr(v, "value", v)).limit_denominator(100000)


class Nets:
    """Which expressions are the same net: follows plain combinational connections bit by bit."""
    def __init__(self, frag):
        from migen.fhdl.structure import Signal, _Assign
        from migen.fhdl.tools import list_targets
        self.cds = {cd.name: cd for cd in frag.clock_domains}
        self.keep, self.next, seen = [frag], {}, {}
        for st in list(frag.comb) + [x for v in frag.sync.values() for x in v]:
            for t in list_targets(st):
                seen.setdefault(id(t), []).append(st)
        plain = lambda e: isinstance(e, Signal) and all(isinstance(st, _Assign) for st in seen[id(e)])
        for st in frag.comb:
            if isinstance(st, _Assign) and all(plain(t) for t in list_targets(st)):
                l, r = self.bits(st.l), self.bits(st.r)
                if all(x[0] == "s" and not x[3] for x in l):
                    for k, x in enumerate(l):
                        self.next[x[:3]] = r[k] if k < len(r) else ("c", 0, 0, 0)

    def bits(self, e):
        """[(kind, id, bit, inverted)] of an expression, lowest first."""
        from migen.fhdl.structure import Cat, ClockSignal, Constant, Signal, _Operator, _Slice, wrap
        e = wrap(e)
        if isinstance(e, ClockSignal) and e.cd in self.cds:
            e = self.cds[e.cd].clk
        if isinstance(e, Signal):
            return [("s", id(e), k, 0) for k in range(len(e))]
        if isinstance(e, _Slice):
            return self.bits(e.value)[e.start:e.stop]
        if isinstance(e, Cat):
            return [b for x in e.l for b in self.bits(x)]
        if isinstance(e, Constant):
            return [("c", 0, 0, e.value >> k & 1) for k in range(e.nbits)]
        if isinstance(e, _Operator) and e.op == "~":
            return [x[:3] + (1 - x[3],) for x in self.bits(e.operands[0])]
        if isinstance(e, ClockSignal):
            return [("d", e.cd, 0, 0)]
        self.keep.append(e)
        return [("e", id(e), k, 0) for k in range(len(e))]

    def root(self, e):
        out = []
        for b in self.bits(e):
            for _ in range(1000):
                n = self.next.get(b[:3])
                if n is None:
                    break
                b = n[:3] + (n[3] ^ b[3],)
            out.append(b)
        return tuple(out)

    def same(self, a, b):
        return a is not None and b is not None and self.root(a) == self.root(b)


class Clocks:
    """rate(expr): (root signal's id or name, frequency ratio to it), or None where the tree has unknown parts."""
    def __init__(self, frag, roots=None):
        """roots: [(signal, name, frequency)] known from outside."""
        self.roots = {id(s): (n, Fraction(f)) for s, n, f in roots or []}
        from migen.fhdl.structure import _Assign, Signal
        self.cds = {cd.name: cd for cd in frag.clock_domains}
        self.alias = {id(s.l): s.r for s in frag.comb if isinstance(s, _Assign) and isinstance(s.l, Signal)}
        self.nets = Nets(frag)
        self.src = {}
        for i in black_boxes(frag)[0]:
            p, q = params(i), ports(i)
            for n, e in q.items():
                if not isinstance(e, Signal):
                    continue
                k = self._factor(i.of, n, p)
                if k is not None:
                    self.src[id(e)] = (q.get(k[0]), k[1])

    @staticmethod
    def _factor(of, n, p):
        if of in ("BUFG", "BUFR", "BUFH", "BUFIO") and n == "O":
            d = p.get("BUFR_DIVIDE", "BYPASS") if of == "BUFR" else "BYPASS"
            return "I", Fraction(1) if d == "BYPASS" else Fraction(1, int(d))
        if of in ("IBUFDS", "IBUFDS_DIFF_OUT", "IBUFGDS") and n in ("O", "OB"):
            return "I", Fraction(1)
        if of == "BUFPLL" and n == "IOCLK":
            return "PLLIN", Fraction(1)
        if of == "DCM_CLKGEN" and n == "CLKFX":
            return "CLKIN", number(p.get("CLKFX_MULTIPLY", 4)) / number(p.get("CLKFX_DIVIDE", 1))
        if of in ("PLL_ADV", "PLLE2_ADV", "PLLE2_BASE", "MMCME2_ADV", "MMCME2_BASE") and n.startswith("CLKOUT") and n[6:].isdigit():
            mul = p.get("CLKFBOUT_MULT_F", p.get("CLKFBOUT_MULT"))
            div = p.get(n + "_DIVIDE_F", p.get(n + "_DIVIDE", 1))
            if mul is None:
                return None
            return "CLKIN1", number(mul) / number(p.get("DIVCLK_DIVIDE", 1)) / number(div)
        return None

    def domain(self, e):
        """Name of the clock domain an expression is the clock of (or its inverse), else None."""
        from migen.fhdl.structure import ClockSignal, _Operator
        while isinstance(e, _Operator) and e.op == "~":
            e = e.operands[0]
        if isinstance(e, ClockSignal):
            return e.cd
        for n, cd in sorted(self.cds.items()):
            if e is cd.clk:
                return n
        for n, cd in sorted(self.cds.items()):
            if self.nets.same(e, cd.clk):
                return n
        return None

    def rate(self, e, depth=0):
        from migen.fhdl.structure import ClockSignal, Signal, _Operator
        if depth > 40 or e is None:
            return None
        while isinstance(e, _Operator) and e.op == "~":
            e = e.operands[0]
        if isinstance(e, ClockSignal):
            if e.cd not in self.cds:
                return ("domain " + e.cd, Fraction(1))
            e = self.cds[e.cd].clk
        if not isinstance(e, Signal):
            return None
        if id(e) in self.roots:
            return self.roots[id(e)]
        if id(e) in self.src:
            a, k = self.src[id(e)]
            r = self.rate(a, depth + 1)
            return None if r is None else (r[0], r[1] * k)
        if id(e) in self.alias:
            return self.rate(self.alias[id(e)], depth + 1)
        return (id(e), Fraction(1))

    def ratio(self, a, b):
        """Frequency of a over frequency of b, or None when unknown."""
        x, y = self.rate(a), self.rate(b)
        if x is None or y is None or x[0] != y[0]:
            return None
        return x[1] / y[1]


def ratios(clocks, want):
    """Defines for a harness: the first domain pair whose frequency ratio is known and not the wanted one."""
    for a, b, f in want:
        if a not in clocks.cds or b not in clocks.cds:
            continue
        r = clocks.ratio(clocks.cds[a].clk, clocks.cds[b].clk)
        if r is not None and r != Fraction(f):
            return {"RATIO_FAIL": '"clock %s runs at %s times the frequency of %s, must be %s"' % (a, r, b, Fraction(f))}
    return {}


def undriven(clocks, frag, names):
    """The first of the named clock domains that exists but has no clock, or None."""
    from migen.fhdl.tools import list_targets
    t = {id(x) for s in frag.comb for x in list_targets(s)} | {id(x) for v in frag.sync.values() for s in v for x in list_targets(s)}
    for i in black_boxes(frag)[0]:
        for it in i.items:
            if type(it).__name__ in ("Output", "InOut"):
                t |= {b[1] for b in clocks.nets.bits(it.expr)}
    for n in names:
        if n in clocks.cds and id(clocks.cds[n].clk) not in t:
            return n
    return None


def faults(clocks, frag, port_clock="sys"):
    """What keeps the clock generators of a fragment from making their clocks or answering on their programming port, or None."""
    from fractions import Fraction
    from migen.fhdl.structure import Constant
    for of in ("PLL_ADV", "PLLE2_ADV", "MMCME2_ADV"):
        for p, q in boxes(frag, of):
            fb = clocks.rate(q.get("CLKFBIN"))
            if fb is None or fb != clocks.rate(q.get("CLKFBOUT")):
                return "the feedback of %s is open" % of
            sel = q.get("CLKINSEL")
            if isinstance(sel, Constant) and not sel.value & 1:
                return "%s takes the clock input that is not connected" % of
            if clocks.domain(q.get("DCLK")) not in (port_clock, None):
                return "the programming port of %s is clocked by %s" % (of, clocks.domain(q["DCLK"]))
    for p, q in boxes(frag, "DCM_CLKGEN"):
        if clocks.domain(q.get("PROGCLK")) not in (port_clock, None):
            return "the programming port of the DCM is clocked by %s" % clocks.domain(q["PROGCLK"])
        if isinstance(q.get("FREEZEDCM"), Constant) and q["FREEZEDCM"].value:
            return "the DCM is frozen"
    for p, q in boxes(frag, "BUFPLL"):
        r = clocks.ratio(q["PLLIN"], q["GCLK"])
        if r is not None and r != Fraction(p.get("DIVIDE", 1)):
            return "the strobe comes every %s bits, a word has %s" % (p.get("DIVIDE", 1), r)
    return None
