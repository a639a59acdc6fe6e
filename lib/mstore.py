"""Behaviours of MatStore -> scripts of its interpreter."""
import core
from core import Program, hexf


def ntok(p):
    return "%s %s" % (hexf(p[0] / 16.0), hexf(p[1] / 16.0))


def nums(l):
    return " ".join(ntok(p) for p in l)


ARGS = {"newx": "k r c x", "copyc": "k j", "copya": "k j", "movec": "k j", "movea": "k j", "del": "k", "copyd": "k j", "copyp": "k x",
        "reshape": "k r c", "pad": "j k p q", "read": "k via", "extread": "x", "express": "q op i j", "evalx": "q",
        "copyv": "how k j", "linkv": "k l j m", "readv": "k", "expressv": "q op i j", "evaly": "q", "dery": "q s"}


def script(ident, beh, real):
    out, exp = [], {}
    for n, r in enumerate(beh):
        a = r["a"]
        if a == "nop":
            continue
        if a == "start":
            out += ["0 x %d %s" % (i + 1, nums(e)) for i, e in enumerate(r["x"])]
            continue
        if a in ARGS:
            ln = " ".join([a] + [str(r[f]) for f in ARGS[a].split()])
        elif a == "new":
            ln = "new %d %d %d %s %s" % (r["k"], r["r"], r["c"], r["how"], ntok(r["v"]))
        elif a == "set":
            ln = "set %d %d %d %s" % (r["k"], r["l"], r["via"], ntok(r["v"]))
        elif a == "extset":
            ln = "extset %d %d %s" % (r["x"], r["l"], ntok(r["v"]))
        elif a == "getblock":
            ln = "getblock %d %d %s" % (r["j"], r["k"], " ".join(map(str, r["w"])))
        elif a == "setblock":
            ln = "setblock %d %d %s" % (r["k"], r["j"], " ".join(map(str, r["w"])))
        elif a in ("row", "col"):
            ln = "%s %d %d %d %d" % (a, r["j"], r["k"], r["i"], r["tmp"])
        elif a == "newv":
            ln = "newv %d %d %d %s" % (r["k"], r["r"], r["c"], nums(r["v"]))
        elif a == "setv":
            ln = "setv %d %d %s" % (r["k"], r["l"], ntok(r["v"]))
        else:
            raise core.CheckError("unknown action %s" % a)
        out.append("%d %s" % (n, ln))
        if "o" in r:
            o = r["o"]
            exp[(n, 0)], exp[(n, 1)] = o["r"], o["c"]
            for i, v in enumerate(o["e"]):
                exp[(n, 2 + i)] = core.number(complex(v[0] / 256.0, v[1] / 256.0))
    return Program(ident, beh, "\n".join(out) + "\n", exp)


def interp(cfg):
    return core.build_interp(cfg, "mstore_main.cpp", {}, "mstore")
