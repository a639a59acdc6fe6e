"""What each check runs."""
import hashlib, json, os, re, time
import core, engine, matrix, mshapes, mstore, scalar, shapes
from core import CONFIGS


class Report:
    """One failure, as written to the replay file."""
    def __init__(self, summary, body, key=""):
        self.summary, self.body, self.key = summary, body, key

    def text(self):
        return self.summary + "\n\n" + self.body + "\n"


def report(f):
    script = f.prog.code
    obs = re.search(r"observed (.*)", f.detail)
    obs = "" if not obs else "".join("%.4g " % float(x) for x in re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?", obs.group(1)))
    key = hashlib.sha256((f.cfg + script + f.kind + obs).encode()).hexdigest()[:12]
    try:
        src = open(f.source).read() if f.source and os.path.exists(f.source) else ""
    except OSError:
        src = ""
    body = "configuration %s; behaviour of the specification:\n%s\n" % (f.cfg, "\n".join(json.dumps(r) for r in f.prog.behaviour))
    body += "\nas executed:\n%s\nkey=%s\n\nwhole input of the driver:\n%s" % (script, key, src[:200000])
    return Report("[%s] %s" % (f.cfg, f.detail), body, key)


class Context:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.quick = tier != "thorough"
        self.states = self.transitions = self.traces = 0
        self.stats, self.samples, self.log = {}, [], []
        self.n = 0

    def sub(self, name):
        self.n += 1
        d = os.path.join(self.work, "%02d-%s" % (self.n, name))
        os.makedirs(d, exist_ok=True)
        return d

    def account(self, name, behaviours, states, stats, t):
        self.states += states
        self.transitions += sum(len(b) for b in behaviours)
        self.traces += stats.get("programs", 0)
        for k, v in stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        if behaviours and len(self.samples) < 3:
            self.samples.append(dict(run=name, behaviour=json.dumps(behaviours[len(behaviours) // 2])[:3000]))
        self.log.append(dict(run=name, behaviours=len(behaviours), states=states, wall_s=round(time.time() - t, 1), **stats))


def pick(ctx, q, t):
    return q if ctx.quick else t


# ------------------------------------------------------------------ scalar
def scalar_run(profile, cfg, nq, nt, depth=30, tonly=False):
    def step(ctx):
        if tonly and ctx.quick:
            return []
        t = time.time()
        real = CONFIGS[cfg]["real"]
        count = pick(ctx, shapes.NQUICK, len(shapes.SHAPES))
        name = "ScalarProg/%s/%s" % (profile, cfg)
        work = ctx.sub(profile + "-" + cfg)
        exe = scalar.interp(cfg, count)
        consts = {"Real": "TRUE" if real else "FALSE", "Profile": '"%s"' % profile, "Depth": depth, "NShapes": count}
        n = pick(ctx, nq, nt)
        fails, done = [], 0
        while done < n and not fails:
            k = min(4000, n - done)
            b, st = core.simulate("ScalarProg", consts, work, k, depth, ctx.seed * 100 + ctx.n + done, shards=core.JOBS)
            if len(b) < k // 2:
                raise core.CheckError("only %d of %d behaviours were generated" % (len(b), k))
            stats = {}
            fails = core.interpret(exe, [scalar.script(i, x, real) for i, x in enumerate(b)], cfg, work, stats)
            ctx.account(name, b, st, stats, t)
            done += k
        return [report(f) for f in fails]
    return step


def scalar_deep(profile, cfg, nq, nt, depth=14):
    """Behaviours compiled as C++ programs: trees of any shape."""
    def step(ctx):
        t = time.time()
        n = pick(ctx, nq, nt)
        if n == 0:
            return []
        real = CONFIGS[cfg]["real"]
        work = ctx.sub("deep-" + profile + "-" + cfg)
        consts = {"Real": "TRUE" if real else "FALSE", "Profile": '"%s"' % profile, "Depth": depth, "NShapes": 0}
        b, st = core.simulate("ScalarProg", consts, work, n, depth, ctx.seed * 100 + ctx.n)
        stats = {}
        fails = core.replay([scalar.program(i, x, real) for i, x in enumerate(b)], cfg, work, stats)
        ctx.account("ScalarProg/%s/%s compiled" % (profile, cfg), b, st, stats, t)
        return [report(f) for f in fails]
    return step


def known_acosh(ctx):
    """The recorded finding: the derivative of acosh where the real part of
    its argument is negative."""
    import cmath
    fails = []
    for q, kind in (("fwd", "P02"), ("rev", "P03"), ("sym", "P04")):
        if kind != ctx.prop:
            continue
        z = -1.5 + 0.5j
        lines = ["0 start 1 %s %s 0" % (core.hexf(z.real), core.hexf(z.imag)), "1 new 1 acosh V 1"]
        lines += {"fwd": ["2 fwd 1 1"], "rev": ["2 pre 1", "2 rev 1 1"], "sym": ["2 sym 1 1 2", "2 eval 2"]}[q]
        want = 1 / (cmath.sqrt(z - 1) * cmath.sqrt(z + 1))
        p = core.Program(0, [dict(a="acosh at -1.5+0.5i, " + q)], "\n".join(lines) + "\n", {(2, 0): core.number(want, 1e-15)})
        exe = scalar.interp("dc", pick(ctx, shapes.NQUICK, len(shapes.SHAPES)))
        fails += core.interpret(exe, [p], "dc", ctx.sub("known"), {}, jobs=1)
    return [report(f) for f in fails]


def engine_run(menus, nq, nt, cfg="dr"):
    """Exhaustive: the model of the engine answers as specified after every
    history up to a length, and the library follows on every transition."""
    def step(ctx):
        t = time.time()
        work = ctx.sub("engine-" + menus)
        ok, _, _, _ = engine.check(menus, 3, work, defect="visited")
        if ok:
            raise core.CheckError("the engine model does not notice a defective reset")
        n = pick(ctx, nq, nt)
        ok, paths, gen, states = engine.check(menus, n, work, show=True)
        if not ok:
            raise core.CheckError("the model of the engine does not answer as specified")
        top = engine.maximal(paths)
        exe = scalar.interp(cfg, pick(ctx, shapes.NQUICK, len(shapes.SHAPES)))
        stats = {}
        fails = core.interpret(exe, [engine.script(i, p) for i, p in enumerate(top)], cfg, work, stats)
        ctx.account("ADEngine/%s up to %d calls, every transition" % (menus, n + 1), top, states, stats, t)
        if not ctx.quick and not fails:
            t = time.time()
            ok, _, gen, states = engine.check(menus, n + 2, work)
            if not ok:
                raise core.CheckError("the model of the engine does not answer as specified")
            ctx.account("ADEngine/%s up to %d calls, model only" % (menus, n + 2), [], states, {}, t)
        return [report(f) for f in fails]
    return step


def scalar_all(profile, n=1600, thorough=24000, deep=16, depth=30):
    r = [scalar_run(profile, "dc", n, thorough, depth), scalar_run(profile, "dr", n, thorough, depth)]
    if deep:
        r.append(scalar_deep(profile, "dc", deep, 8 * deep))
    r.append(scalar_run(profile, "fr", 0, thorough // 4, depth, tonly=True))
    return r


# ------------------------------------------------------------------ matrix
def matrix_run(profile, cfg, nq, nt, depth=16):
    """nq, nt: behaviours in the quick and the thorough tier (0: none)."""
    def step(ctx):
        n = pick(ctx, nq, nt)
        if n == 0:
            return []
        t = time.time()
        real = CONFIGS[cfg]["real"]
        work = ctx.sub(profile + "-" + cfg)
        exe = matrix.interp(profile, cfg, not ctx.quick)
        use, rec = matrix.uses(profile, not ctx.quick)
        consts = {"Real": "TRUE" if real else "FALSE", "Profile": '"%s"' % profile, "Use": use, "RecUse": rec, "Depth": depth}
        fails, done = [], 0
        while done < n and not fails:
            k = min(2000, n - done)
            b, st = core.simulate("MatProg", consts, work, k, depth, ctx.seed * 100 + ctx.n + done, shards=core.JOBS)
            if len(b) < k // 2:
                raise core.CheckError("only %d of %d behaviours were generated" % (len(b), k))
            stats = {}
            fails = core.interpret(exe, [matrix.script(i, x, real) for i, x in enumerate(b)], cfg, work, stats)
            ctx.account("MatProg/%s/%s" % (profile, cfg), b, st, stats, t)
            done += k
        return [report(f) for f in fails]
    return step


def matrix_all(profile, n=1200, thorough=16000, depth=16):
    return [matrix_run(profile, "dc", n, thorough, depth), matrix_run(profile, "dr", n, thorough, depth)]


# ------------------------------------------------------------------ containers
def store_run(cfg, nq, nt, depth=60):
    def step(ctx):
        n = pick(ctx, nq, nt)
        if n == 0:
            return []
        t = time.time()
        real = CONFIGS[cfg]["real"]
        work = ctx.sub("store-" + cfg)
        exe = mstore.interp(cfg)
        consts = {"Real": "TRUE" if real else "FALSE", "Depth": depth}
        fails, done = [], 0
        while done < n and not fails:
            k = min(4000, n - done)
            b, st = core.simulate("MatStore", consts, work, k, depth, ctx.seed * 100 + ctx.n + done, shards=core.JOBS)
            if len(b) < k // 2:
                raise core.CheckError("only %d of %d behaviours were generated" % (len(b), k))
            stats = {}
            fails = core.interpret(exe, [mstore.script(i, x, real) for i, x in enumerate(b)], cfg, work, stats)
            ctx.account("MatStore/%s" % cfg, b, st, stats, t)
            done += k
        return [report(f) for f in fails]
    return step


CHECKS = {
    "P01": scalar_all("eval"),
    "P02": scalar_all("fwd") + [known_acosh],
    "P03": scalar_all("rev") + [known_acosh],
    "P04": scalar_all("sym", 1200) + scalar_all("hess", 800, 12000, 0) + scalar_all("ad2", 800, 12000, 0) + [known_acosh],
    "P05": scalar_all("hist", 2400, 40000) + [engine_run("small", 4, 5), engine_run("chain", 4, 5)],
    "P06": scalar_all("rec", 1600, 40000) + scalar_all("recops", 1600, 40000, 0) + [engine_run("rec", 4, 5)],
    "P07": scalar_all("alias", 2400, 40000),
    "P08": matrix_all("meval"),
    "P09": matrix_all("mfwd"),
    "P10": matrix_all("mrev"),
    "P11": matrix_all("mlib") + matrix_all("mlibr", 800),
    "P12": matrix_all("mconv"),
    "P13": [store_run("dc", 6000, 100000), store_run("dr", 6000, 100000), store_run("np", 0, 40000), store_run("as", 1500, 20000)],
    "P14": matrix_all("mmix"),
    "P15": matrix_all("mhold"),
    "P16": matrix_all("mhist", 1200, 16000, 20),
    "P18": [matrix_run("mreal", "dr", 800, 12000), matrix_run("mhist", "np", 600, 8000), matrix_run("mlib", "fr", 600, 8000),
            matrix_run("mconv", "fc", 400, 8000), matrix_run("mmix", "np", 0, 8000), matrix_run("mreal", "fr", 400, 8000), matrix_run("mrev", "fc", 0, 8000),
            scalar_run("recops", "fr", 1000, 16000), scalar_run("hist", "fc", 1000, 16000), scalar_run("rev", "np", 0, 16000), scalar_run("fwd", "np", 1000, 16000)],
    "P17": scalar_all("mixed", 2400, 40000),
    "P19": matrix_all("mscal"),
    "P20": scalar_all("custom", 2400, 40000),
    "P21": [matrix_run("mhist", "as", 400, 6000), matrix_run("mmix", "as", 400, 6000), matrix_run("mconv", "as", 400, 6000), matrix_run("mhold", "as", 400, 6000),
            matrix_run("mlib", "as", 0, 6000), matrix_run("mrev", "as", 0, 6000), store_run("as", 1500, 40000),
            scalar_run("hist", "as", 600, 8000), scalar_run("recops", "as", 600, 8000), scalar_run("alias", "as", 0, 8000)],
}
