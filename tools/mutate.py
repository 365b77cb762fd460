#!/usr/bin/env python3
"""Mutation campaign: how many small semantic changes of one file do the checks see?
mutate.py OUTDIR FILE[,FILE...] CHECK[,CHECK...] [STRIDE] [OFFSET] [PAR] -- works on scratch copies only."""
import ast, concurrent.futures, json, os, shutil, subprocess, sys

SWAP = [("r", "g"), ("g", "b"), ("hsync", "vsync"), ("y", "cb"), ("cb", "cr"), ("c0", "c1"), ("first", "last"), ("es0", "es1")]


STRUCT = os.environ.get("MUT") == "struct"
PAIRS = [("valid", "ready"), ("sink", "source"), ("hres", "vres"), ("hsync_start", "hsync_end"), ("vsync_start", "vsync_end"), ("hscan", "hres"), ("vscan", "vres"), ("base", "length"),
         ("data0", "data1"), ("data_in0", "data_in1"), ("data_out1", "data_out2"), ("valid_i", "valid_o"), ("de_r", "de"), ("cb", "cr"), ("storage", "re"), ("i", "o"), ("raw", "d")]


def structural(n, src, span, rep, out):
    """Order, guards and wiring rather than operators: swapped statements, dropped conjuncts and branches."""
    txt = lambda x: src[slice(*span(x))]
    name = n.func.id if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) else n.func.attr if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) else None
    seq = []
    if isinstance(n, (ast.List, ast.Tuple)):
        seq = n.elts
    elif name in ("If", "Elif", "act"):
        seq = n.args[1:]
    elif name == "Else":
        seq = n.args
    st = [x for x in seq if isinstance(x, ast.Call)]
    if len(st) == len(seq):
        for x, y in zip(st, st[1:]):
            a, b = span(x)[0], span(y)[1]
            out.append((a, b, txt(y) + src[span(x)[1]:span(y)[0]] + txt(x), "%d: %s <-> %s (order)" % (n.lineno, txt(x)[:40].replace("\n", " "), txt(y)[:40].replace("\n", " "))))
        for x in st:
            f = x.func
            k = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if k in ("If", "Elif", "Else", "NextState", "NextValue", "Case"):
                rep(x, "Signal().eq(0)", "drop")
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr)):
        rep(n, "(" + txt(n.left) + ")", "left only")
        rep(n, "(" + txt(n.right) + ")", "right only")
    if name in ("Elif", "Else") and isinstance(n.func, ast.Attribute):
        rep(n, txt(n.func.value), "branch dropped")
        if name == "Elif":
            rep(n.args[0], "~(" + txt(n.args[0]) + ")", "negate")
    if name == "Elif" or name == "If":
        rep(n.args[0], "1", "always")
    if isinstance(n, ast.Attribute):
        for x, y in PAIRS:
            if n.attr in (x, y):
                a, b = span(n)
                rep(n, src[a:b - len(n.attr)] + (y if n.attr == x else x), "other")


def mutants(src):
    t = ast.parse(src)
    for n in ast.walk(t):
        for c in ast.iter_child_nodes(n):
            c.parent = n
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))
    pos = lambda ln, col: starts[ln - 1] + len(lines[ln - 1].encode()[:col].decode())
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []

    def skip(n):
        while hasattr(n, "parent"):
            if isinstance(n, ast.keyword) and n.arg and n.arg.startswith("p_"):
                return True
            if isinstance(n, (ast.Import, ast.ImportFrom, ast.Assert, ast.JoinedStr)):
                return True
            n = n.parent
        return False

    def rep(n, new, what):
        a, b = span(n)
        out.append((a, b, new, "%d: %s -> %s (%s)" % (n.lineno, src[a:b][:60].replace("\n", " "), new[:60].replace("\n", " "), what)))

    def between(l, r, old, new, what, ln):
        a, b = span(l)[1], span(r)[0]
        k = src.find(old, a, b)
        if k >= 0:
            out.append((k, k + len(old), new, "%d: %s %s -> %s (%s)" % (ln, src[span(l)[0]:span(r)[1]][:60].replace("\n", " "), old, new, what)))
    OPS = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&"), ast.LShift: ("<<", ">>"), ast.RShift: (">>", "<<"), ast.BitXor: ("^", "|")}
    CMP = {ast.Eq: ("==", "!="), ast.NotEq: ("!=", "=="), ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">")}
    for n in ast.walk(t):
        if not hasattr(n, "lineno") or skip(n):
            continue
        if STRUCT:
            structural(n, src, span, rep, out)
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in OPS:
            o, w = OPS[type(n.op)]
            between(n.left, n.right, o, w, "op", n.lineno)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            o, w = CMP[type(n.ops[0])]
            between(n.left, n.comparators[0], o, w, "cmp", n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Invert):
            a, b = span(n.operand)
            rep(n, src[a:b], "invert")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            rep(n, str(n.value + 1), "const")
            if n.value > 0:
                rep(n, str(n.value - 1), "const")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "eq" and isinstance(n.parent, (ast.List, ast.Call, ast.AugAssign, ast.Tuple)):
            rep(n, "Signal().eq(0)", "delete")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "If":
            a, b = span(n.args[0])
            rep(n.args[0], "~(" + src[a:b] + ")", "negate")
        elif isinstance(n, ast.Attribute) and not STRUCT:
            for x, y in SWAP:
                if n.attr in (x, y):
                    a, b = span(n)
                    rep(n, src[a:b - len(n.attr)] + (y if n.attr == x else x), "swap")
    return out


def main():
    od, files, checks = sys.argv[1], sys.argv[2].split(","), sys.argv[3].split(",")
    stride = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    off = int(sys.argv[5]) if len(sys.argv) > 5 else 0
    par = int(sys.argv[6]) if len(sys.argv) > 6 else 2
    os.makedirs(od, exist_ok=True)
    ver = os.path.join(od, "verif")
    if not os.path.exists(ver):
        os.mkdir(ver)
        shutil.copytree("/verif/mc", ver + "/mc")
        shutil.copy("/verif/known_findings.json", ver)
    todo = []
    for f in files:
        src = open("/repo/" + f).read()
        todo += [(f, src) + m for m in mutants(src)]
    todo = todo[off::stride]
    log = open(os.path.join(od, "log-%s.txt" % files[0].replace("/", "_")), "a")

    def one(k):
        f, src, a, b, new, what = todo[k]
        w = os.path.join(od, "%s-%d" % (f.replace("/", "_"), k))
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree("/repo", w + "/repo", ignore=shutil.ignore_patterns(".git", "__pycache__", "*.jpg", "*.png"))
        shutil.copytree(ver + "/mc", w + "/mc", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copy(ver + "/known_findings.json", w)
        open(w + "/repo/" + f, "w").write(src[:a] + new + src[b:])
        res = "survived"
        try:
            for c in checks:
                r = subprocess.run(["timeout", "900", "python3", "mc/check.py", c], cwd=w, env=dict(os.environ, MC_REPO=w + "/repo", VERIF_SEED="1", VERIF_TIER="quick"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 1:
                    l = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
                    res = "caught " + (l[0].split("replay=")[0] + l[0].split("  ", 1)[-1][:120] if l else "?")
                    break
                if r.returncode:
                    res = "ERROR %s rc %d: %s" % (c, r.returncode, r.stdout[-300:].replace("\n", " | "))
                    break
        finally:
            shutil.rmtree(w, ignore_errors=True)
        print("%s %s: %s" % (os.path.basename(f), what, res), file=log, flush=True)
        return res.split()[0]
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        rs = list(ex.map(one, range(len(todo))))
    print(files, {r: rs.count(r) for r in set(rs)})


if __name__ == "__main__":
    main()
