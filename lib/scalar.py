"""Behaviours of ScalarProg -> C++ programs."""
from core import Program, num, hexf


def lit(t, real):
    v, _ = num(t)
    return "N(%s)" % hexf(v.real) if real else "N(%s, %s)" % (hexf(v.real), hexf(v.imag))


def tree(t, real):
    op = t[0]
    if op == "V":
        return "x%d" % t[1]
    if op == "P":
        return "p%d" % t[1]
    if op == "E":
        return "e%d" % t[1]
    if op == "T":
        return lit(t[1], real)
    if op == "I":
        return "(%d)" % t[1]
    if op == "neg":
        return "(-%s)" % tree(t[1], real)
    if op == "f":
        return "%s(%s)" % (t[1], tree(t[2], real))
    if op == "^":
        return "pow(%s, %s)" % (tree(t[1], real), tree(t[2], real))
    if op in ("ProductS", "MixS"):
        return "%s(%s, %s)" % (op, tree(t[1], real), tree(t[2], real))
    return "(%s %s %s)" % (tree(t[1], real), op, tree(t[2], real))


def program(ident, beh, real):
    c, exp = [], {}
    for n, r in enumerate(beh):
        a = r["a"]
        if a == "nop":
            continue
        c.append("  S(%d);" % n)
        def want(i, o):
            exp[(n, i)] = o
        def vec(name="v"):
            return "Vector<Variable> %s{%s};" % (name, ", ".join("x%d" % i for i in r["l"]))
        def mat():
            l = r["l"]
            d = "%d, 1" % len(l) if n % 2 else "1, %d" % len(l)
            return "Matrix<Variable> m(%s); %s" % (d, " ".join("m[%d] = x%d;" % (q, i) for q, i in enumerate(l)))
        if a == "start":
            c += ["  Variable x%d(%s);" % (i + 1, lit(v, real)) for i, v in enumerate(r["x"])]
            c += ["  Parameter p%d(%s);" % (i + 1, lit(v, real)) for i, v in enumerate(r["p"])]
        elif a == "new":
            c.append("  Expression e%d%s;" % (r["k"], ("{%s}" if n % 2 else " = %s") % tree(r["t"], real)))
        elif a == "decl":
            c.append("  Expression e%d; e%d = %s;" % (r["k"], r["k"], tree(r["t"], real)))
        elif a == "assign" or a == "ecopy":
            c.append("  e%d = %s;" % (r["k"], tree(r["t"], real)))
        elif a == "enew":
            c.append("  Expression e%d(%s);" % (r["k"], tree(r["t"], real)))
        elif a == "set":
            c.append("  x%d = %s;" % (r["i"], lit(r["v"], real)))
        elif a == "pset":
            c.append("  p%d = %s;" % (r["i"], lit(r["v"], real)))
        elif a == "vnew":
            c.append("  Variable x%d(x%d);" % (r["i"], r["j"]))
        elif a == "vcopy":
            c.append("  x%d = x%d;" % (r["i"], r["j"]))
        elif a == "vfresh":
            c.append("  x%d = Variable(%s);" % (r["i"], lit(r["v"], real)))
        elif a == "pnew":
            c.append("  Parameter p%d(p%d);" % (r["i"], r["j"]))
        elif a == "pcopy":
            c.append("  p%d = p%d;" % (r["i"], r["j"]))
        elif a == "pdecl":
            c.append("  Parameter p%d(%s);" % (r["i"], lit(r["v"], real)))
        elif a == "pfresh":
            c.append("  p%d = Parameter(%s);" % (r["i"], lit(r["v"], real)))
        elif a == "vget":
            c.append("  O(0, R1::Eval(x%d));" % r["i"])
            want(0, r["o"])
        elif a == "pget":
            c.append("  O(0, R1::Eval(p%d));" % r["i"])
            want(0, r["o"])
        elif a == "eval":
            c.append("  O(0, R1::Eval(e%d));" % r["k"])
            want(0, r["o"])
        elif a == "fwd":
            c.append("  O(0, R1::DevalF(e%d, x%d));" % (r["k"], r["i"]))
            want(0, r["o"])
        elif a == "pre":
            c.append("  R1::PreComp(e%d);" % r["k"])
        elif a == "prec":
            c.append("  R1::PreCompCache(e%d);" % r["k"])
        elif a == "rev":
            if r["fresh"]:
                c.append("  R1::PreComp(e%d);" % r["k"])
            c.append("  O(0, R1::DevalR(e%d, x%d));" % (r["k"], r["i"]))
            want(0, r["o"])
        elif a == "sym":
            d = "R1::SymDiff(e%d, x%d)" % (r["k"], r["i"])
            if r["new"]:
                c.append("  Expression e%d%s;" % (r["m"], (" = %s" if n % 2 else "; e%d = %%s" % r["m"]) % d))
            else:
                c.append("  e%d = %s;" % (r["m"], d))
        elif a == "teval":
            c.append("  O(0, R1::Eval(%s));" % tree(r["t"], real))
            want(0, r["o"])
        elif a == "tfwd":
            c.append("  O(0, R1::DevalF(%s, x%d));" % (tree(r["t"], real), r["i"]))
            want(0, r["o"])
        elif a == "tsym":
            c.append("  O(0, R1::Eval(R1::SymDiff(%s, x%d)));" % (tree(r["t"], real), r["i"]))
            want(0, r["o"])
        elif a in ("jac", "grad", "fwdmat", "revmat", "symmat"):
            k = r["k"]
            if a == "jac":
                q = (vec() + " auto& j = R2::JacobianR(e%d, v);" if n % 2 else mat() + " auto& j = R2::JacobianR(e%d, m);") % k
            elif a == "fwdmat":
                q = mat() + " auto& j = R2::DevalF(e%d, m%s);" % (k, ", false" if n % 3 == 0 else "")
            elif a == "revmat":
                q = mat() + " auto& j = R2::DevalR(e%d, m);" % k
            elif a == "grad":
                q = (vec() + " auto& j = R2::SymGradient(e%d, v);" if n % 2 else mat() + " auto& j = R2::SymGradient(e%d, m);") % k
            else:
                q = mat() + " auto& j = R2::SymMatDiff(e%d, m);" % k
            if a in ("grad", "symmat"):
                q += " for (int i = 0; i < %d; ++i) O(i, R1::Eval(j[i]));" % len(r["l"])
            else:
                q += " for (int i = 0; i < %d; ++i) O(i, j[i]);" % len(r["l"])
            c.append("  { %s }" % q)
            for i, o in enumerate(r["o"]):
                want(i, o)
        elif a in ("hessr", "hesss"):
            k, l = r["k"], len(r["l"])
            f = "HessianR" if a == "hessr" else "SymHessian"
            q = (vec() + " auto& j = R2::%s(e%d, v);" if n % 2 else mat() + " auto& j = R2::%s(e%d, m);") % (f, k)
            g = "R1::Eval(j(i, q))" if a == "hesss" else "j(i, q)"
            q += " for (int i = 0; i < %d; ++i) for (int q = 0; q < %d; ++q) O(i * %d + q, %s);" % (l, l, l, g)
            c.append("  { %s }" % q)
            for i, row in enumerate(r["o"]):
                for j, o in enumerate(row):
                    want(i * l + j, o)
        else:
            raise ValueError("unknown action " + a)
    return Program(ident, beh, "\n".join(c) + "\n", exp)


# ------------------------------------------------------------- interpreter
def ttok(t, real):
    op = t[0]
    if op in ("V", "P", "E", "I"):
        return "%s %d" % (op, t[1])
    if op == "T":
        v, _ = num(t[1])
        return "T %s %s" % (hexf(v.real), hexf(v.imag))
    if op == "f":
        return "%s %s" % (t[1], ttok(t[2], real))
    return " ".join([op] + [ttok(a, real) for a in t[1:]])


def ntok(v):
    z, _ = num(v)
    return "%s %s" % (hexf(z.real), hexf(z.imag))


def script(ident, beh, real):
    """Behaviour -> lines for the interpreter."""
    c, exp = [], {}
    for n, r in enumerate(beh):
        a = r["a"]
        if a == "nop":
            continue
        ln = None
        if a == "start":
            ln = "start %d %s %d %s" % (len(r["x"]), " ".join(map(ntok, r["x"])), len(r["p"]), " ".join(map(ntok, r["p"])))
        elif a in ("new", "decl", "assign", "ecopy", "enew"):
            ln = "%s %d %s" % ({"ecopy": "assign", "enew": "new"}.get(a, a), r["k"], ttok(r["t"], real))
        elif a in ("set", "pset", "vfresh", "pdecl", "pfresh"):
            ln = "%s %d %s" % (a, r["i"], ntok(r["v"]))
        elif a in ("vnew", "vcopy", "pnew", "pcopy"):
            ln = "%s %d %d" % (a, r["i"], r["j"])
        elif a in ("vget", "pget"):
            ln = "%s %d" % (a, r["i"])
        elif a in ("eval", "pre", "prec"):
            ln = "%s %d" % (a, r["k"])
        elif a == "fwd":
            ln = "fwd %d %d" % (r["k"], r["i"])
        elif a == "rev":
            if r["fresh"]:
                c.append("%d %s %d" % (n, "pre" if n % 2 else "prec", r["k"]))
            ln = "rev %d %d" % (r["k"], r["i"])
        elif a == "sym":
            ln = "sym %d %d %d" % (r["k"], r["i"], r["m"])
        elif a == "teval":
            ln = "teval %s" % ttok(r["t"], real)
        elif a in ("tfwd", "tsym"):
            ln = "%s %d %s" % (a, r["i"], ttok(r["t"], real))
        else:
            ln = "%s %d %d %s" % (a, r["k"], len(r["l"]), " ".join(map(str, r["l"])))
        c.append("%d %s" % (n, ln))
        if "o" in r:
            o = r["o"]
            if a in ("hessr", "hesss"):
                for i, row in enumerate(o):
                    for j, v in enumerate(row):
                        exp[(n, i * len(o) + j)] = v
            elif a in ("jac", "grad", "fwdmat", "revmat", "symmat"):
                for i, v in enumerate(o):
                    exp[(n, i)] = v
            else:
                exp[(n, 0)] = o
    return Program(ident, beh, "\n".join(c) + "\n", exp)


def interp(cfg, count):
    """Build the interpreter that knows the first `count' shapes."""
    import core, shapes
    parts = core.JOBS if count < 400 else 3 * core.JOBS
    units = {"shapes_%02d.cpp" % i: shapes.cpp(i, parts, count) for i in range(parts)}
    units["shapes_all.cpp"] = "".join("void shapes_%d();\n" % i for i in range(parts)) + \
        "void register_all() {\n" + "".join("  shapes_%d();\n" % i for i in range(parts)) + "}\n"
    return core.build_interp(cfg, "interp_main.cpp", units, "interp")
