"""Transitions of ADEngine -> scripts of the scalar interpreter."""
import json
import core
from core import Program, CheckError

P = 7
CFG = """SPECIFICATION Spec
INVARIANT Answers
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Shown
CHECK_DEADLOCK FALSE
CONSTANTS
  P = %d
  Vals = {2, 3}
  Menus = "%s"
  MaxLen = %d
  Show = %s
  Defect = "%s"
"""


def check(menus, length, work, show=False, defect="none", timeout=800):
    """Explore the engine exhaustively.  Returns (holds, histories, generated, distinct)."""
    r = core.tlc("ADEngine", CFG % (P, menus, length, "TRUE" if show else "FALSE", defect), work,
                 workers="1" if show else str(core.JOBS), timeout=timeout, heap="6g", name="ADEngine_" + menus + defect)
    bad = "Invariant Answers is violated" in r.stdout
    if not bad and "No error has been found" not in r.stdout:
        i = r.stdout.find("Error")
        raise CheckError("TLC failed on ADEngine:\n%s\n%s" % (r.stdout[i:i + 2000], r.stderr[-500:]))
    paths = [json.loads(json.loads(l)[2:]) for l in r.stdout.splitlines() if l.startswith('"@@')]
    return (not bad, paths) + core.tlc_stats(r.stdout)


def tree(t):
    if t[0] in ("v", "r"):
        return "V %d" % t[1] if t[1] <= 2 else "E %d" % (t[1] - 2)
    return "%s %s %s" % (t[0], tree(t[1]), tree(t[2]))


INIT = ["start 2 0x1p+1 0x0p+0 0x1.8p+1 0x0p+0 0", "new 3 * V 1 V 2", "new 2 + V 1 V 2", "new 1 * E 2 V 1"]


def script(ident, path):
    out, exp = ["0 " + l for l in INIT], {}
    for n, a in enumerate(path):
        n += 1
        k = a[0]
        if k == "set":
            ln = "set %d %s 0x0p+0" % (a[1], core.hexf(a[2]))
        elif k == "assign":
            ln = "assign %d %s" % (a[1] - 2, tree(a[2]))
        elif k in ("eval", "pre"):
            ln = "%s %d" % (k, a[1] - 2)
        else:
            ln = "%s %d %d" % (k, a[1] - 2, a[2])
        out.append("%d %s" % (n, ln))
        if k in ("eval", "fwd", "rev"):
            exp[(n, 0)] = (a[-1], P)
    return Program(ident, [dict(history=path)], "\n".join(out) + "\n", exp)


def maximal(paths):
    """The histories that are no prefix of another one."""
    pre = set()
    for p in paths:
        for i in range(1, len(p)):
            pre.add(json.dumps(p[:i]))
    seen, res = set(), []
    for p in paths:
        k = json.dumps(p)
        if k not in pre and k not in seen:
            seen.add(k)
            res.append(p)
    return res
