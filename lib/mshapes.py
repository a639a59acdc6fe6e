"""The table of matrix expression shapes the matrix interpreter can build as
one C++ expression.  `python3 lib/mshapes.py' rewrites spec/MShapes.tla.

A shape is a tree.  Matrix leaves: X Matrix<Variable>, T Matrix<Type>,
P Matrix<Parameter>, S Matrix<Expression> with scalar expressions as elements,
E matrix expression.  Scalar leaves: t number, v variable, p parameter,
e scalar expression."""
import os, random

BIN = {"+": "+", "-": "-", "*": "*", "^": "^", "%": "%", "./": "/"}
FUN2 = {"catv": "concat<ConcatAxis::VERTICAL>", "cath": "concat<ConcatAxis::HORIZONTAL>"}
SC = ["s+m", "m+s", "s-m", "m-s", "s*m", "m*s", "m/s"]
ELEM = ["SinM", "CosM", "ExpM", "LogM", "SqrtM", "TanhM", "SigmoidM", "CubeM"]
ELEMR = ["ReLUM", "LeakyReLUM", "AbsM"]          # real configurations only
UN = {"tr": "transpose", "inv": "inv", "det": "det", "vec": "vec", "sigR": "Sigma<Axis::ROW>",
      "sigC": "Sigma<Axis::COLUMN>", "sigA": "Sigma<Axis::ALL>", "trace": "trace", "frob": "MatrixFrobeniusNorm",
      "smR": "SoftMax<Axis::ROW>", "smC": "SoftMax<Axis::COLUMN>", "smA": "SoftMax<Axis::ALL>",
      "pow0": "pow<0>", "pow1": "pow<1>", "pow2": "pow<2>", "pow3": "pow<3>", "mexp2": "MatrixExp<2>", "mexp3": "MatrixExp<3>",
      "mlog2": "MatrixLog<2>", "mlog3": "MatrixLog<3>"}
for f in ELEM + ELEMR:
    UN[f] = f
BC = {"bcR": "broadcast<Axis::ROW>", "bcC": "broadcast<Axis::COLUMN>", "bcA": "broadcast<Axis::ALL>"}
CORE2 = ["+", "-", "*", "^"]
CORE1 = ["tr", "inv", "det", "vec"] + ELEM
LIB1 = ["sigR", "sigC", "sigA", "trace", "frob", "smR", "smC", "smA", "pow2", "pow3", "mexp3", "mlog2", "bcR", "bcC", "bcA"]
LIB2 = ["%", "./", "catv", "cath"]


def key(t):
    return t if isinstance(t, str) else " ".join([t[0]] + [key(a) for a in t[1:]])


def ops(t):
    return [] if isinstance(t, str) else [t[0]] + [o for a in t[1:] for o in ops(a)]


def leaves(t):
    return [t] if isinstance(t, str) else [x for a in t[1:] for x in leaves(a)]


def w(t):
    """a scalar of the result that gives every entry its own adjoint"""
    return ("sigA", ("^", "T", t))


def tables():
    rnd = random.Random(7)
    tab = {}

    def uniq(l):
        seen, res = set(), []
        for t in l:
            if key(t) not in seen:
                seen.add(key(t))
                res.append(t)
        return res

    def leaf(pool):
        return rnd.choice(pool)

    def one(op, pool, spool="tvpe"):
        """a level of operator op above leaves"""
        if op in BIN or op in FUN2 or op == "conv":
            a, b = leaf(pool), leaf(pool)
            if a in "TP" and b in "TP":
                b = "X"
            return (op, a, b)
        if op in SC:
            return (op, leaf(spool), leaf(pool.replace("T", "").replace("P", "")))
        return (op, leaf(pool.replace("T", "").replace("P", "")))

    def two(op, inner, pool, spool="tvpe"):
        if op in BIN or op in FUN2 or op == "conv":
            return (op, inner, leaf(pool)) if rnd.random() < .5 else (op, leaf(pool), inner)
        if op in SC:
            return (op, leaf(spool), inner)
        return (op, inner)

    # ---- operators and elementary matrix functions
    core = [(o, a, b) for o in CORE2 for a in "XTPSE" for b in "XTPSE"
            if (a in "XE" or b in "XE") and not (a in "PS" and b in "PSE") and not (b in "PS" and a == "E")]
    core += [(o, s, m) for o in SC for s in "tvpe" for m in ("X", "E")] + [(o, rnd.choice("tve"), m) for o in SC for m in "TS"]
    core += [(o, m) for o in CORE1 for m in ("X", "E")] + [("tr", "T"), ("tr", "S"), ("SinM", "S"), ("ExpM", "P"), ("det", "T"), ("inv", "T")]
    pairs = [(o, i) for o in CORE2 + SC + CORE1 for i in CORE2 + SC + CORE1]
    rnd.shuffle(pairs)
    deep = [two(o, one(i, "XXXTES"), "XXTEP") for o, i in pairs]
    tab["core"] = uniq(core)
    tab["core2"] = uniq(deep)
    # ---- reverse mode: scalar results over one level, over two levels
    nested = [(o, a, b) for o in CORE2 for a in "XTPE" for b in "XTPE" if a in "XE" or b in "XE"]
    rev = [w(t) for t in nested if not (t[1] in "EP" and t[2] in "EP" and t[1] != t[2])]
    rev += [w((o, s, m)) for o in SC for s in "tvp" for m in ("X", "E")] + [w((o, "e", "X")) for o in SC]
    rev += [w((o, m)) for o in CORE1 for m in ("X", "E") if o != "det" or m == "X"]
    rev += [("det", "X"), ("sigA", "X"), ("trace", "X"), ("frob", "X"), ("*", "X", "X"), ("+", "E", "E"), ("*", "E", "E"),
            ("sigA", ("*", "X", "X")), ("^", "E", "E"), ("-", "E", "E"), ("SinM", "E"), ("ExpM", "E"), ("s*m", "v", "E"),
            ("+", ("sigA", "X"), "E"), ("*", "E", ("trace", "X")), ("+", ("*", "E", "E"), "E"), ("tr", "E")]
    pairs = [(o, i) for o in CORE2 + SC + CORE1 for i in CORE2 + SC + CORE1]
    rnd.shuffle(pairs)
    rev2 = [w(two(o, one(i, "XXXT", "tvp"), "XXTP", "tvp")) for o, i in pairs]
    tab["rev"] = uniq(rev)
    tab["rev2"] = uniq(rev2)
    # ---- library functions
    lib = [(o, m) for o in LIB1 for m in ("X", "E")] + [("pow0", "X"), ("pow1", "X"), ("mexp2", "E"), ("mlog3", "X"), ("bcR", "T"), ("sigA", "S"), ("smR", "T")]
    lib += [(o, a, b) for o in LIB2 for a in "XTE" for b in "XTE" if not (a == "T" and b == "T")]
    lib += [("sigA", ("^", "X", "X")), ("SinM", ("sigR", "X")), ("*", ("smC", "X"), "X"), ("trace", ("*", "X", "T")), ("+", ("bcC", "X"), "X"),
            ("^", ("catv", "X", "X"), "T"), ("frob", ("-", "X", "T")), ("pow2", ("+", "X", "T")), ("smR", ("*", "T", "X")), ("tr", ("cath", "X", "T")),
            ("inv", ("pow2", "X")), ("%", "T", ("*", "X", "X")), ("./", "X", ("ExpM", "X")), ("sigC", ("smA", "X")), ("vec", ("catv", "X", "T"))]
    libr = [w((o, "X")) for o in LIB1 if o not in ("trace", "frob", "sigA")] + [("trace", "E"), ("frob", "E"), ("sigA", "E")]
    libr += [w((o, a, b)) for o in LIB2 for a, b in (("X", "X"), ("X", "T"), ("T", "X"))]
    libr += [("frob", ("-", ("*", "T", "X"), "T")), ("trace", ("*", "X", "X")), ("sigA", ("smR", ("*", "T", "X"))), ("det", ("*", "X", "T")),
             ("trace", ("inv", "X")), ("trace", ("pow2", "X")), ("sigA", ("./", "T", "X")), ("sigA", ("sigR", "X")), ("frob", ("catv", "X", "X"))]
    tab["lib"] = uniq(lib)
    tab["librev"] = uniq(libr)
    # ---- convolution
    conv = [("conv", a, b) for a in "XTE" for b in "XTE" if not (a == "T" and b == "T")] + [("conv", "S", "X"), ("conv", "P", "X"), ("conv", "X", "P")]
    conv += [("SinM", ("conv", "X", "T")), ("conv", ("*", "X", "T"), "T"), ("conv", "X", ("^", "X", "X")), ("+", ("conv", "X", "X"), "T"),
             ("conv", ("conv", "X", "T"), "T"), ("conv", ("SinM", "X"), "X"), ("tr", ("conv", "X", "X")), ("conv", "T", ("tr", "X")), ("s*m", "v", ("conv", "X", "X")),
             ("sigA", ("conv", "X", "X")), ("^", ("conv", "X", "T"), ("conv", "X", "T"))]
    convr = [w(("conv", a, b)) for a, b in (("X", "T"), ("T", "X"), ("X", "X"), ("X", "P"))] + \
            [w(("SinM", ("conv", "X", "X"))), w(("conv", ("SinM", "X"), "T")), w(("conv", "X", ("tr", "X"))), w(("conv", ("*", "X", "T"), "X")), ("sigA", ("conv", "X", "X")),
             ("conv", "X", "X"), w(("conv", ("conv", "X", "T"), "X"))]
    tab["conv"] = uniq(conv)
    tab["convrev"] = uniq(convr)
    # ---- real functions
    tab["real"] = uniq([(o, m) for o in ELEMR for m in "XET"] + [("*", "T", ("ReLUM", "X")), ("ReLUM", ("*", "T", "X")), ("AbsM", ("-", "X", "T")), ("LeakyReLUM", ("+", ("*", "T", "X"), "X"))])
    tab["realrev"] = uniq([w((o, "X")) for o in ELEMR] + [w(("ReLUM", ("*", "T", "X"))), w(("LeakyReLUM", ("*", "T", "X"))), ("sigA", ("AbsM", ("-", "X", "T")))])
    # ---- statements that mention the expression assigned to
    tab["rec"] = uniq([("+", "E", "X"), ("+", "X", "E"), ("-", "X", "E"), ("^", "E", "E"), ("^", "X", "E"), ("*", "E", "X"), ("*", "X", "E"), ("SinM", "E"), ("tr", "E"), ("s*m", "t", "E"),
                       ("s*m", "v", "E"), ("m+s", "t", "E"), ("+", ("^", "E", "T"), "X"), ("+", "E", ("SinM", "E")), ("SinM", ("*", "T", "E")), ("-", ("*", "E", "T"), "E")])
    return tab


TAB = tables()
# the groups each profile draws from
PROFILES = {
    "meval": ["core", "core2:90"],
    "mfwd": ["core", "core2:90"],
    "mrev": ["rev", "rev2:60"],
    "mlib": ["lib"],
    "mlibr": ["librev"],
    "mconv": ["conv", "convrev"],
    "mreal": ["real", "realrev"],
    "mhist": ["core:40", "rec", "rev:24"],
    "mmix": ["core:30", "lib:20", "conv:8"],
    "mscal": ["scal"],
}


def group(name, full=False):
    g, _, n = name.partition(":")
    l = TAB[g]
    if n and not full:
        n = int(n)
        # an even selection: level-one tables are ordered, the others shuffled
        l = [l[i * len(l) // n] for i in range(n)]
    return l


TAB["scal"] = [(o, s, m) for o in SC for s in "tvpe" for m in ("X", "E")] + [("*", "S", "X"), ("+", "S", "X"), ("^", "S", "X"), ("SinM", "S"), ("tr", "S"), ("*", "X", "S"),
    ("-", "X", "S"), ("s*m", "e", "S"), ("sigA", "S"), ("*", "S", "S"), ("det", "S"), ("s*m", "v", ("*", "X", "X")), ("m+s", "e", ("*", "X", "T")), ("s-m", "v", ("SinM", "X")),
    ("m/s", "e", ("^", "X", "X")), ("*", "X", ("s*m", "v", "X")), ("SinM", ("s*m", "e", "X")), ("s*m", "v", ("s*m", "v", "X")), ("+", ("s*m", "v", "X"), ("m+s", "v", "X"))]


def profile_shapes(profile, full=False):
    res, seen = [], set()
    for g in PROFILES[profile]:
        for t in group(g, full):
            if key(t) not in seen:
                seen.add(key(t))
                res.append(t)
    return res


def expr(t, n):
    if isinstance(t, str):
        n[0] += 1
        return "l.%s(%d)" % (t, n[0] - 1)
    op = t[0]
    if op in BIN:
        a = expr(t[1], n)
        return "(%s %s %s)" % (a, BIN[op], expr(t[2], n))
    if op in FUN2:
        a = expr(t[1], n)
        return "%s(%s, %s)" % (FUN2[op], a, expr(t[2], n))
    if op in SC:
        s = expr(t[1], n)
        m = expr(t[2], n)
        return "(%s %s %s)" % ((s, op[1], m) if op[0] == "s" else (m, op[1], s))
    if op == "conv":
        a = expr(t[1], n)
        b = expr(t[2], n)
        n[0] += 4
        return "conv(%s, %s, %s)" % (a, b, ", ".join("l.n(%d)" % (n[0] - 4 + i) for i in range(4)))
    if op in BC:
        a = expr(t[1], n)
        n[0] += 1
        return "%s(%s, l.n(%d))" % (BC[op], a, n[0] - 1)
    return "%s(%s)" % (UN[op], expr(t[1], n))


def split(shapes, parts):
    groups = {}
    for t in shapes:
        o = ops(t)
        k = o[-1]
        if len(o) > 2 and o[:2] == ["sigA", "^"]:
            k = "w " + k
        groups.setdefault(k, []).append(t)
    cost = lambda g: 2.0 + sum(0.5 + 0.5 * len(ops(t)) for t in g)
    # no unit may dominate: cut the large groups
    total = sum(cost(g) for g in groups.values())
    cut = []
    for k, g in sorted(groups.items()):
        while cost(g) > total / parts:
            h = len(g) // 2
            cut.append((k, g[:h]))
            g = g[h:]
        cut.append((k, g))
    res, load = [[] for _ in range(parts)], [0.0] * parts
    for k, g in sorted(cut, key=lambda x: (-cost(x[1]), x[0], key(x[1][0]))):
        u = load.index(min(load))
        res[u] += g
        load[u] += cost(g)
    return res


def units(shapes, parts):
    res = {}
    parts = min(parts, max(1, len(shapes) // 4))
    for i, mine in enumerate(split(shapes, parts)):
        body = ['  reg("%s", [](Leaves& l) -> decltype(auto) { return %s; });' % (key(t), expr(t, [0])) for t in mine]
        res["mshapes_%02d.cpp" % i] = '#include "minterp.hpp"\nvoid mshapes_%d() {\n%s\n}\n' % (i, "\n".join(body))
    res["mshapes_all.cpp"] = "".join("void mshapes_%d();\n" % i for i in range(parts)) + \
        "void register_all() {\n" + "".join("  mshapes_%d();\n" % i for i in range(parts)) + "}\n"
    return res


def tla(t):
    return '<<"%s">>' % t if isinstance(t, str) else "<<%s>>" % ", ".join(['"%s"' % t[0]] + [tla(a) for a in t[1:]])


def module(shapes, full):
    """The shapes as a TLA+ module."""
    return ("------------------------------ MODULE MShapes ------------------------------\n"
            "(* The matrix expression shapes built as one C++ expression.  This committed  *)\n"
            "(* copy lists every shape of lib/mshapes.py; a check uses those of a profile. *)\n"
            "MShapes == <<\n%s\n>>\n" % ",\n".join("  " + tla(t) for t in shapes)) + "=" * 77 + "\n"


def every():
    res, seen = [], set()
    for g in TAB:
        for t in TAB[g]:
            if key(t) not in seen:
                seen.add(key(t))
                res.append(t)
    return res


if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "spec", "MShapes.tla"), "w") as f:
        f.write(module(every(), True))
    print(len(every()), {g: len(TAB[g]) for g in TAB}, {p: len(profile_shapes(p)) for p in PROFILES})
