"""Behaviours of MatProg -> scripts of the matrix interpreter."""
import core, mshapes
from core import Program, hexf

LEAF = {"X", "T", "P", "S", "E", "v", "p", "e"}


def ntok(p):
    return "%s %s" % (hexf(p[0] / 16.0), hexf(p[1] / 16.0))


def nums(l):
    return " ".join(ntok(p) for p in l)


def tree(t):
    op = t[0]
    if op in LEAF:
        return "%s %d" % (op, t[1])
    if op == "t":
        return "t " + ntok(t[1])
    if op == "N":
        return "N %d %d %s" % (t[1], t[2], nums(t[3]))
    kids = [x for x in t[1:] if isinstance(x, list)]
    ints = [x for x in t[1:] if not isinstance(x, list)]
    return "%s %d %d %s" % (op, len(kids), len(ints), " ".join([tree(k) for k in kids] + [str(i) for i in ints]))


class Sizes:
    def __init__(self, d):
        self.combos = [(r, c) for r in d for c in d]
        self.xbase, b = {}, 3
        for s in range(1, 19):
            self.xbase[s] = b
            b += self.of(s)
        self.pbase, b = {}, 1
        for s in range(1, 10):
            self.pbase[s] = b
            b += self.of(s)

    def dims(self, s):
        return self.combos[(s - 1) % 9]

    def of(self, s):
        r, c = self.dims(s)
        return r * c

    def cell(self, i):
        """variable cell -> how the interpreter names it"""
        if i <= 3:
            return "v %d" % i
        for s in range(18, 0, -1):
            if i > self.xbase[s]:
                return "X %d %d" % (s, i - self.xbase[s] - 1)


def term(t, z):
    op = t[0]
    if op == "x":
        return z.cell(t[1])
    if op == "p":
        return "p %d" % t[1]
    if op == "f":
        return "%s %s" % (t[1], term(t[2], z))
    return "%s %s %s" % (op, term(t[1], z), term(t[2], z))


def script(ident, beh, real):
    st = beh[0]
    z = Sizes(st["d"])
    body, exp, used = [], {}, {k: set() for k in "XTPSe"}

    def scan(t):
        if t[0] in used and not isinstance(t[1], list):
            used[t[0]].add(t[1])
        for x in t[1:]:
            if isinstance(x, list) and x and isinstance(x[0], str):
                scan(x)

    def scan_term(t):
        if t[0] == "x" and t[1] > 3:
            used["X"].add(int(z.cell(t[1]).split()[1]))
        for x in t[1:]:
            if isinstance(x, list):
                scan_term(x)
    for n, r in enumerate(beh):
        a = r["a"]
        if a in ("nop", "start"):
            continue
        if "t" in r:
            scan(r["t"])
        if a in ("fwd", "rev", "tfwd", "lfwd", "setx"):
            used["X"].add(r["s"])
        if a == "sett":
            used["T"].add(r["s"])
        if a == "setp":
            used["P"].add(r["s"])
        if a in ("new", "decl", "assign"):
            ln = "%s %d %s" % (a, r["k"], tree(r["t"]))
        elif a in ("setx", "sett", "setp"):
            ln = "%s %d %d %s" % (a, r["s"], r["from"] - 1, nums(r["v"]))
        elif a == "setv":
            ln = "setv %d %s" % (r["i"], ntok(r["v"]))
        elif a == "setq":
            ln = "setq %s" % ntok(r["v"])
        elif a == "mode":
            ln = "mode %d" % (1 if r["naive"] else 0)
        elif a in ("eval", "pre", "fwdy"):
            ln = "%s %d" % (a, r["k"])
        elif a in ("teval", "leval", "frame"):
            ln = "%s %s" % (a, tree(r["t"]))
        elif a == "fwd":
            ln = "fwd %d %d" % (r["k"], r["s"])
        elif a in ("tfwd", "lfwd"):
            ln = "%s %d %s" % (a, r["s"], tree(r["t"]))
        elif a in ("rev", "revv"):
            if r["fresh"]:
                body.append("%d pre %d" % (n, r["k"]))
            ln = "%s %d %d" % (a, r["k"], r["s"] if a == "rev" else r["i"])
        elif a == "hold":
            ln = "hold %d %d" % (r["k"], r["h"])
        elif a == "look":
            ln = "look %d" % r["h"]
        elif a == "const":
            ln = "const %s %d %d" % (r["w"], r["n"], r["m"])
        else:
            raise core.CheckError("unknown action %s" % a)
        body.append("%d %s" % (n, ln))
        if "o" in r:
            o = r["o"]
            exp[(n, 0)], exp[(n, 1)] = o["r"], o["c"]
            for i, v in enumerate(o["e"]):
                exp[(n, 2 + i)] = v
    for s in used["S"]:
        for t in st["s"][s - 1]:
            scan_term(t)
    head = ["0 v " + nums(st["x"][:3]), "0 p " + nums(st["p"][:1])]
    for s in sorted(used["X"]):
        b = z.xbase[s]
        head.append("0 X %d %d %d %s" % (s, *z.dims(s), nums(st["x"][b:b + z.of(s)])))
    for s in sorted(used["P"]):
        b = z.pbase[s]
        head.append("0 P %d %d %d %s" % (s, *z.dims(s), nums(st["p"][b:b + z.of(s)])))
    for s in sorted(used["T"]):
        head.append("0 T %d %d %d %s" % (s, *z.dims(s), nums(st["t"][s - 1])))
    for s in sorted(used["S"]):
        head.append("0 S %d %d %d %s" % (s, *z.dims(s), " ".join(term(t, z) for t in st["s"][s - 1])))
    for s in (1, 2):
        head.append("0 e %d %s" % (s, term(st["e"][s - 1], z)))
    y = st["y"]
    head.append("0 Y %d %d %s" % (y[0], y[1], " ".join(map(str, y[2]))))
    return Program(ident, beh, "\n".join(head + body) + "\n", exp)


# profile of the specification -> profile of shapes
SHAPES = {"mlibr": "mlibr", "mhold": "mmix"}


def interp(profile, cfg, full):
    shapes = mshapes.profile_shapes(SHAPES.get(profile, profile), full)
    return core.build_interp(cfg, "minterp_main.cpp", mshapes.units(shapes, core.JOBS if len(shapes) < 300 else 3 * core.JOBS),
                             "minterp-" + SHAPES.get(profile, profile))


def uses(profile, full):
    """indices into MShapes of the shapes of a profile, and of those that
    statements on themselves use"""
    every = {}
    for t in mshapes.every():
        every[mshapes.key(t)] = len(every) + 1
    rec = {mshapes.key(t) for t in mshapes.TAB["rec"]}
    shapes = mshapes.profile_shapes(SHAPES.get(profile, profile), full)
    use = sorted(every[mshapes.key(t)] for t in shapes)
    recs = sorted(every[mshapes.key(t)] for t in shapes if mshapes.key(t) in rec)
    fmt = lambda l: "{%s}" % ", ".join(map(str, l))
    return fmt(use), fmt(recs)
