"""The table of expression shapes the interpreter can build as one C++
expression.  `python3 lib/shapes.py' rewrites spec/Shapes.tla, from which the
specification draws; C++ builders are produced from the same table when a
check builds its driver.

A shape is a tree whose leaves are operand kinds: V variable, P parameter,
E expression, T scalar constant, I C++ int literal."""
import os, random

UNARY = "sin cos tan sinh cosh tanh asin acos atan asinh acosh atanh exp log sqrt neg".split()
BIN = "+ - * / ^".split()
UCUST = "SinS CosS CubeS".split()
BCUST = "ProductS MixS".split()


def key(t):
    return t if isinstance(t, str) else " ".join([t[0]] + [key(a) for a in t[1:]])


def leaves(t):
    return [t] if isinstance(t, str) else [x for a in t[1:] for x in leaves(a)]


def depth(t):
    return 0 if isinstance(t, str) else 1 + max(depth(a) for a in t[1:])


def table():
    rnd = random.Random(20261119)
    res, seen = [], set()

    def add(t):
        if key(t) not in seen:
            seen.add(key(t))
            res.append(t)
    # every operator with every combination of operand kinds
    for u in UNARY:
        for k in "VPE":
            add((u, k))
    for b in BIN:
        for k in "VPETI":
            for l in "VPETI":
                if k in "VPE" or l in "VPE":
                    add((b, k, l))
    for u in UCUST:
        add((u, "V")), add((u, "E")), add((u, "P"))
    for b in BCUST:
        for k in "VEP":
            for l in "VEP":
                add((b, k, l))
    # every operator above every operator, on either side
    def lf(z):
        return rnd.choice("VVVEEP" if z else "VVEEPTI")
    def inner(op):
        if op in UNARY or op in UCUST:
            return (op, lf(1))
        a = lf(0)
        return (op, a, lf(a in "TI")) if op in BIN else (op, lf(1), lf(1))
    ops = [("+", 1), ("+", 2), ("*", 1), ("*", 2), ("-", 1), ("-", 2), ("/", 1), ("/", 2), ("^", 1), ("^", 2)]
    deep = []
    for b, side in ops:
        for i in UNARY + BIN + UCUST + BCUST:
            n = inner(i)
            deep.append((b, n, lf(0)) if side == 1 else (b, lf(0), n))
    for u in UNARY + UCUST:
        for i in UNARY + BIN:
            deep.append((u, inner(i)))
    for b in BCUST:
        for i in UNARY[:3] + BIN:
            deep += [(b, inner(i), lf(1)), (b, lf(1), inner(i))]
    rnd.shuffle(deep)
    # a few of depth three and balanced ones
    d3 = []
    for _ in range(60):
        a = inner(rnd.choice(UNARY + BIN * 3))
        c = inner(rnd.choice(UNARY + BIN * 3))
        b = rnd.choice(BIN[:4])
        t = (b, a, c)
        if rnd.random() < .5:
            t = (rnd.choice(["sin", "exp", "tanh", "neg"]), t) if rnd.random() < .5 else (rnd.choice("+*-"), t, lf(0))
        d3.append(t)
    # statements that mention the expression assigned to
    rec = [("+", ("*", "E", "E"), "E"), ("+", ("*", "E", "T"), "E"), ("*", ("+", "E", "V"), "E"),
           ("+", ("*", "V", "E"), "V"), ("-", "V", ("*", "E", "E")), ("neg", ("*", "E", "E")),
           ("+", ("*", "E", "T"), "V"), ("+", ("*", "P", "E"), "P"), ("sin", ("+", "E", "E")),
           ("*", ("sin", "E"), "E"), ("+", ("sin", "E"), ("cos", "E")), ("+", "E", ("*", "E", "V"))]
    # every operator with the expression assigned to below it
    ins = [("+", "E", "V"), ("sin", "E"), ("*", "E", "P"), ("-", "V", "E")]
    n = 0
    for b in BIN + BCUST:
        for l in ("VPTI" if b in BIN else "VP"):
            add((b, ins[n % 4], l)), add((b, l, ins[(n + 1) % 4]))
            n += 1
    for u in UNARY + UCUST:
        add((u, ins[n % 4]))
        n += 1
    core = len(res)
    for t in rec + [x for p in zip(deep[:90], (d3 * 2)[:90]) for x in p] + deep[90:]:
        add(t)
    return res, core, core + len(rec)


SHAPES, NDEPTH1, NREC = table()
NQUICK = NREC + 96


def expr(t, n):
    if isinstance(t, str):
        n[0] += 1
        return "l.%s(%d)" % (t, n[0] - 1)
    op = t[0]
    if op == "neg":
        return "(-%s)" % expr(t[1], n)
    if op in BIN and op != "^":
        a = expr(t[1], n)
        return "(%s %s %s)" % (a, op, expr(t[2], n))
    a = [expr(x, n) for x in t[1:]]
    return "%s(%s)" % ("pow" if op == "^" else op, ", ".join(a))


def split(parts, count):
    """Numbers of the shapes of each unit: those with the same operators are
    compiled together, because they share template instances."""
    def ops(t):
        return [] if isinstance(t, str) else [t[0]] + [o for a in t[1:] for o in ops(a)]
    groups = {}
    for i in range(count):
        o = ops(SHAPES[i])
        g = groups.setdefault((o[-1], len(o) > 2 and o[0]), [])
        g.append(i)
    cost = lambda g: 2.0 + sum(1.0 + 0.5 * (len(ops(SHAPES[i])) - 1) for i in g)
    res, load = [[] for _ in range(parts)], [0.0] * parts
    for k in sorted(groups, key=lambda k: (-cost(groups[k]), str(k))):
        u = load.index(min(load))
        res[u] += groups[k]
        load[u] += cost(groups[k])
    return res


def cpp(part, parts, count):
    """C++ source registering the shapes of one unit."""
    out = ['#include "interp.hpp"\n']
    body = []
    mine = set(split(parts, count)[part])
    for i, t in enumerate(SHAPES[:count]):
        if i in mine:
            # queries on the unnamed expression: for a fifth of the shapes
            temp = depth(t) >= 2 and i % 5 == 0 or depth(t) == 1 and i % 4 == 0
            body.append('  %s("%s", [](Leaves& l) -> decltype(auto) { return %s; });' %
                        ("regt" if temp else "reg", key(t), expr(t, [0])))
    out.append("void shapes_%d() {\n%s\n}\n" % (part, "\n".join(body)))
    return "".join(out)


def tla(t):
    return '<<"%s">>' % t if isinstance(t, str) else "<<%s>>" % ", ".join(['"%s"' % t[0]] + [tla(a) for a in t[1:]])


if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "spec", "Shapes.tla"), "w") as f:
        f.write("------------------------------- MODULE Shapes -------------------------------\n"
                "(* Generated by lib/shapes.py: the expression shapes that are built as one  *)\n"
                "(* C++ expression (V variable, P parameter, E expression, T, I constants).   *)\n"
                "NRecShape == %d\nNQuickShape == %d\nShapes == <<\n%s\n>>\n" %
                (NREC, NQUICK, ",\n".join("  " + tla(t) for t in SHAPES)) + "=" * 77 + "\n")
    print(len(SHAPES), NDEPTH1, NREC, NQUICK)
