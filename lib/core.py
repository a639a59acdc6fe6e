"""Shared machinery of the checks: building the library from /repo, running
TLC, replaying generated behaviours, comparing, reporting."""
import hashlib, json, math, os, re, shutil, struct, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
TLA = "/opt/veriftools/tla"
JOBS = min(8, os.cpu_count() or 1)

# configurations of the library
CONFIGS = {
    "dc": dict(real=False, float=False, flags=["-DUSE_COMPLEX_MATH", "-DCOOLDIFF_SCALAR_TYPE=2"]),
    "dr": dict(real=True, float=False, flags=["-DCOOLDIFF_SCALAR_TYPE=2"]),
    "fr": dict(real=True, float=True, flags=["-DCOOLDIFF_SCALAR_TYPE=1"]),
    "np": dict(real=False, float=False, flags=["-DUSE_COMPLEX_MATH", "-DCOOLDIFF_SCALAR_TYPE=2", "-DUSE_CXX_PARALLEL_POLICY", "-UUSE_DYNAMIC_ASSERTIONS"], libs=["-ltbb"]),
    "as": dict(real=False, float=False, flags=["-DUSE_COMPLEX_MATH", "-DCOOLDIFF_SCALAR_TYPE=2", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-g1"], libs=["-fsanitize=address,undefined"]),
    "fc": dict(real=False, float=True, flags=["-DUSE_COMPLEX_MATH", "-DCOOLDIFF_SCALAR_TYPE=1"]),
}
BASE = ["-std=c++17", "-include", "utility", "-DUSE_VIRTUAL_FUNCTIONS", "-DUSE_DYNAMIC_ASSERTIONS",
        "-DNDEBUG", "-fpermissive", "-w", "-pipe"]


class CheckError(Exception):
    """The machinery failed: neither a pass nor a violation."""


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                          errors="replace", timeout=timeout, **kw)


# ---------------------------------------------------------------- library
def includes():
    inc = []
    for d, _, _ in sorted(os.walk(os.path.join(REPO, "include"))):
        inc.append("-I" + d)
    return inc + ["-I" + REPO, "-isystem", "/usr/include/eigen3"]


def repo_hash():
    h = hashlib.sha256()
    for top in ("include", "src"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, top))):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read() + b"\0")
    return h.hexdigest()[:16]


def parallel(fn, items):
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(fn, items))


def build_lib(cfg):
    """Compile /repo/src in the given configuration (cached by content) and a
    precompiled header for the drivers.  Returns (dir, error text or None)."""
    flags = BASE + CONFIGS[cfg]["flags"]
    key = hashlib.sha256((repo_hash() + " ".join(flags) + harness_hash()).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "lib-%s-%s" % (cfg, key))
    if os.path.exists(os.path.join(out, "ok")):
        return out, None
    if os.path.isdir(BUILD):
        for d in os.listdir(BUILD):  # drop libraries of other trees
            if d.startswith("lib-%s-" % cfg):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    srcs = []
    for d, ds, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        ds.sort()
        srcs += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".cpp")]
    jobs = [("o", s, os.path.join(out, "%02d.o" % i)) for i, s in enumerate(srcs)]
    jobs.insert(0, ("h", os.path.join(HARNESS, "rt.hpp"), os.path.join(out, "rt.hpp.gch")))

    def one(j):
        kind, src, obj = j
        if kind == "h":
            cmd = ["g++"] + flags + ["-O0"] + includes() + ["-x", "c++-header", src, "-o", obj]
        else:
            cmd = ["g++"] + flags + ["-O0"] + includes() + ["-c", src, "-o", obj]
        r = run(cmd)
        return None if r.returncode == 0 else "%s\n%s" % (src, r.stderr[-3000:])
    errs = [e for e in parallel(one, jobs) if e]
    if errs:
        return out, errs[0]
    r = run(["ar", "rcs", os.path.join(out, "libcd.a")] + [j[2] for j in jobs if j[0] == "o"])
    if r.returncode:
        raise CheckError("ar failed: " + r.stderr)
    shutil.copy(os.path.join(HARNESS, "rt.hpp"), os.path.join(out, "rt.hpp"))
    open(os.path.join(out, "ok"), "w").close()
    return out, None


def harness_hash():
    h = hashlib.sha256()
    for f in sorted(os.listdir(HARNESS)):
        if f.endswith(".hpp"):
            h.update(open(os.path.join(HARNESS, f), "rb").read())
    return h.hexdigest()[:8]


def compile_driver(libdir, cfg, src, exe, opt="-O0"):
    cmd = ["g++"] + BASE + CONFIGS[cfg]["flags"] + [opt, "-I" + libdir] + includes() + \
          ["-include", os.path.join(libdir, "rt.hpp"), src, os.path.join(libdir, "libcd.a"), "-o", exe] + CONFIGS[cfg].get("libs", [])
    r = run(cmd)
    return None if r.returncode == 0 else r.stderr


# ---------------------------------------------------------------- TLC
JLOCK = threading.Lock()


def java_classes():
    """Compile the Java override of module Num (cached by content)."""
    with JLOCK:
        return java_classes_()


def java_classes_():
    srcs = [os.path.join(VERIF, "java", f) for f in sorted(os.listdir(os.path.join(VERIF, "java"))) if f.endswith(".java")]
    key = hashlib.sha256(b"".join(open(f, "rb").read() for f in srcs)).hexdigest()[:12]
    out = os.path.join(BUILD, "java-" + key)
    if not os.path.exists(os.path.join(out, "Num.class")):
        tmp = out + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        r = run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", tmp] + srcs)
        if r.returncode:
            raise CheckError("javac failed: " + r.stderr)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    return out


def tlc(module, cfg_text, work, args=(), timeout=600, heap="4g", workers="1", name=None):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    os.makedirs(work, exist_ok=True)
    cfg = os.path.join(work, (name or module) + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    meta = os.path.join(work, "meta-" + (name or module))
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-DTLA-Library=" + SPEC,
           "-cp", "%s:%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (java_classes(), TLA, TLA),
           "tlc2.TLC", "-config", cfg, "-metadir", meta, "-workers", workers, "-noGenerateSpecTE"]
    cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
    r = run(cmd, timeout=timeout, cwd=work)
    shutil.rmtree(meta, ignore_errors=True)
    return r


def tlc_stats(out):
    m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct", out)
    if m:
        return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    if m:
        n = int(m[-1].replace(",", ""))
        return n, n
    return 0, 0


def simulate(module, consts, work, num, depth, seed, name=None, timeout=600, shards=1):
    """Generate behaviours by TLC simulation.  Returns (behaviours, states)."""
    cfg = "CONSTANTS\n" + "\n".join("  %s = %s" % (k, v) for k, v in consts.items()) + \
          "\nINIT Init\nNEXT Next\nINVARIANT Dump\nCHECK_DEADLOCK FALSE\n"

    def one(i):
        n = num // shards + (1 if i < num % shards else 0)
        if n == 0:
            return [], 0
        r = tlc(module, cfg, work, ["-simulate", "num=%d" % n, "-depth", str(depth + 2), "-seed",
                                    str(seed * 1000 + i)], timeout=timeout, name="%s_%d" % (name or module, i))
        res = []
        seen = set()
        for line in r.stdout.splitlines():
            if line.startswith('"@@'):
                s = json.loads(line)[2:]
                if s not in seen:
                    seen.add(s)
                    res.append(json.loads(s))
        if r.returncode != 0 or "Error" in r.stdout:
            i = r.stdout.find("Error")
            raise CheckError("TLC failed on %s:\n%s\n%s" % (module, r.stdout[i:i + 2000], r.stderr[-1000:]))
        return res, tlc_stats(r.stdout)[0]
    parts = parallel(one, range(shards))
    return [b for p in parts for b in p[0]], sum(p[1] for p in parts)


# ---------------------------------------------------------------- numbers
def num(t):
    """<<re_hi, re_lo, im_hi, im_lo, err_hi, err_lo>> -> (complex, err)"""
    d = []
    for i in range(3):
        d.append(struct.unpack(">d", struct.pack(">iI", t[2 * i], t[2 * i + 1] & 0xffffffff))[0])
    return complex(d[0], d[1]), d[2]


def number(z, err=0.0):
    """complex -> the tuple that represents it"""
    z = complex(z)
    return [x for d in (z.real, z.imag, err) for x in struct.unpack(">ii", struct.pack(">d", d))]


EPS = 2.0 ** -52
K = {False: 400.0, True: 100.0}   # multiple of the tracked error bound that is tolerated (double, float)
worst = {"ratio": 0.0}


def compare(exp, got, is_float):
    """exp: number of the specification, got: complex observed.  Returns
    'ok', 'skip' (the specification says nothing) or 'bad'."""
    v, err = num(exp)
    if not err < math.inf:
        return "skip"
    scale = 2.0 ** 29 if is_float else 1.0
    base = (err + EPS * (0.05 + abs(v))) * scale
    tol = K[is_float] * base
    if tol > 2e-3 * (1 + abs(v)):
        return "skip"
    d = abs(got - v)
    if d <= tol:
        if d / base > worst["ratio"]:
            worst.update(ratio=d / base, exp=v, err=err, got=got)
        return "ok"
    return "bad"   # also NaN


def hexf(x):
    return float(x).hex() if math.isfinite(x) else repr(x)


# ---------------------------------------------------------------- replay
class Program:
    """One behaviour of the specification turned into a C++ function."""
    def __init__(self, ident, behaviour, code, expect, decls=""):
        self.id, self.behaviour, self.code, self.expect, self.decls = ident, behaviour, code, expect, decls
        # expect: {(step, index): expected number}


def driver_source(programs):
    out = []
    for p in programs:
        out.append("%s\nstatic void prog_%d() {\n%s}\n" % (p.decls, p.id, p.code))
    out.append("static Prog progs[] = {%s};\n" % ", ".join("{%d, prog_%d}" % (p.id, p.id) for p in programs))
    out.append("int main(int argc, char** argv) { return run_all(progs, %d, argc, argv); }\n" % len(programs))
    return "".join(out)


def parse_output(text):
    """-> {prog: {(step, idx): complex}}, last marker (prog, step), done flag"""
    obs, last, done = {}, None, False
    for line in text.splitlines():
        f = line.split()
        if not f:
            continue
        if f[0] == "O" and len(f) == 6:
            try:
                re_, im_ = [float.fromhex(x) if "x" in x else float(x) for x in f[4:6]]
            except ValueError:
                continue
            obs.setdefault(int(f[1]), {})[(int(f[2]), int(f[3]))] = complex(re_, im_)
        elif f[0] == "S" and len(f) == 3:
            last = (int(f[1]), int(f[2]))
        elif f[0] == "P" and len(f) == 2:
            last = (int(f[1]), -1)
            obs.setdefault(int(f[1]), {})
        elif f[0] == "DONE":
            done = True
    return obs, last, done


def build_interp(cfg, main, units, name):
    """Build an interpreter: main (a file of harness/) linked with the library
    and the generated units {name: source}.  Returns the executable."""
    libdir, err = build_lib(cfg)
    if err:
        raise CheckError("the library does not build in configuration %s:\n%s" % (cfg, err))
    h = hashlib.sha256(open(os.path.join(HARNESS, main), "rb").read())
    for k in sorted(units):
        h.update((k + "\0" + units[k]).encode())
    exe = os.path.join(libdir, "%s-%s" % (name, h.hexdigest()[:12]))
    if os.path.exists(exe):
        return exe
    srcs = [os.path.join(HARNESS, main)]
    for k in sorted(units):
        p = os.path.join(libdir, k)
        with open(p, "w") as f:
            f.write(units[k])
        srcs.append(p)

    def one(src):
        obj = os.path.join(libdir, name + "_" + os.path.basename(src) + ".o")
        r = run(["g++"] + BASE + CONFIGS[cfg]["flags"] + ["-O0", "-I" + HARNESS, "-I" + libdir] + includes() +
                ["-include", os.path.join(libdir, "rt.hpp"), "-c", src, "-o", obj])
        return obj, None if r.returncode == 0 else r.stderr
    res = parallel(one, srcs)
    for o, e in res:
        if e:
            m = re.search(r"[^\n]*error:[^\n]*", e)
            raise BuildFailure(m.group(0) if m else e[-800:])
    r = run(["g++"] + [o for o, _ in res] + [os.path.join(libdir, "libcd.a"), "-o", exe + ".tmp"] + CONFIGS[cfg].get("libs", []))
    if r.returncode:
        raise BuildFailure(r.stderr[-800:])
    for o, _ in res:
        os.unlink(o)
    os.rename(exe + ".tmp", exe)
    return exe


class BuildFailure(Exception):
    """A program that uses the public interface does not compile."""


def interpret(exe, programs, cfg, work, stats, jobs=None):
    """Run the programs (scripts) through the interpreter, compare; returns
    confirmed failures."""
    os.makedirs(work, exist_ok=True)
    is_float = CONFIGS[cfg]["float"]
    jobs = jobs or JOBS
    chunks = [c for c in (programs[i::jobs] for i in range(jobs)) if c]

    def script_file(name, progs):
        p = os.path.join(work, name)
        with open(p, "w") as f:
            for q in progs:
                f.write("P %d\n%s" % (q.id, q.code))
        return p

    def one(ci):
        i, chunk = ci
        path = script_file("%s_%d.txt" % (cfg, i), chunk)
        fails, loc, start = [], {"compared": 0, "skipped": 0, "programs": 0}, 0
        ids = [q.id for q in chunk]
        while start < len(chunk):
            out, rc = run_driver(exe, start, script=path)
            if rc == 77:
                raise CheckError("the interpreter cannot run %s" % path)
            obs, last, done = parse_output(out)
            if last is None:
                raise CheckError("the interpreter produced nothing: rc=%s" % rc)
            for p in chunk[start:]:
                if p.id not in obs:
                    break
                if not done and last[0] == p.id:
                    fails.append(Failure(p, "crash", "ended abnormally (%s) at step %s" % (rc, last[1]), cfg, path))
                    break
                d = check_obs(p, obs[p.id], is_float, loc)
                loc["programs"] += 1
                if d:
                    fails.append(Failure(p, "mismatch", d, cfg, path))
            if done:
                break
            start = ids.index(last[0]) + 1
            if len(fails) > 10:
                break
        return fails, loc
    fails = []
    for f, loc in parallel(one, list(enumerate(chunks))):
        fails += f
        for k, v in loc.items():
            stats[k] = stats.get(k, 0) + v
    res = []
    for f in fails[:12]:
        # once more, on its own and then after its predecessors
        alone = script_file("%s_confirm_%d.txt" % (cfg, f.prog.id), [f.prog])
        for path in (alone, f.source):
            out, rc = run_driver(exe, 0, script=path)
            obs, last, done = parse_output(out)
            if f.prog.id not in obs:
                continue
            if not done and last and last[0] == f.prog.id:
                f.kind, f.detail = "crash", "ended abnormally (%s) at step %s" % (rc, last[1])
            else:
                d = check_obs(f.prog, obs[f.prog.id], is_float, {"compared": 0, "skipped": 0})
                if not d:
                    continue
                f.kind, f.detail = "mismatch", d
            f.source = path
            if path != alone:
                f.detail += " (after the behaviours before it)"
            res.append(f)
            break
    return res


def run_driver(exe, start=0, timeout=300, script=None):
    env = dict(os.environ, LC_ALL="C")
    try:
        r = run([exe] + ([script] if script else []) + [str(start)], timeout=timeout, env=env)
        return r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return (o if isinstance(o, str) else o.decode(errors="replace")), "timeout"


class Failure:
    def __init__(self, prog, kind, detail, cfg, source=None):
        self.prog, self.kind, self.detail, self.cfg, self.source = prog, kind, detail, cfg, source


def check_obs(p, obs, is_float, stats):
    """Compare the observations of one program; returns a detail or None."""
    for key, exp in sorted(p.expect.items()):
        if key not in obs:
            return "step %d: no observation %d" % key
        got = obs[key]
        if isinstance(exp, tuple):          # an integer modulo a prime
            stats["compared"] += 1
            n = round(got.real) if math.isfinite(got.real) else None
            if n is None or got != complex(n, 0) or (n - exp[0]) % exp[1]:
                return "step %d #%d: expected %d modulo %d, observed %s" % (key[0], key[1], exp[0], exp[1], got)
            continue
        if isinstance(exp, (int, str)):     # an exact integer (dimension, flag)
            stats["compared"] += 1
            if got != complex(int(exp), 0):
                return "step %d #%d: expected %s, observed %s" % (key[0], key[1], exp, got.real)
            continue
        res = compare(exp, got, is_float)
        if res == "skip":
            stats["skipped"] += 1
        else:
            stats["compared"] += 1
        if res == "bad":
            v, err = num(exp)
            return "step %d #%d: expected %s (err %.2g), observed %s" % (key[0], key[1], v, err, got)
    return None


def replay(programs, cfg, work, stats, per_tu=None, opt="-O0"):
    """Compile the programs against the library in configuration cfg, run
    them, and compare.  Returns a list of Failure."""
    libdir, err = build_lib(cfg)
    if err:
        raise CheckError("the library does not build in configuration %s:\n%s" % (cfg, err))
    os.makedirs(work, exist_ok=True)
    n = len(programs)
    if n == 0:
        return []
    if per_tu is None:
        per_tu = max(1, min(25, (n + JOBS - 1) // JOBS))
    chunks = [programs[i:i + per_tu] for i in range(0, n, per_tu)]
    is_float = CONFIGS[cfg]["float"]

    def one(ci):
        i, chunk = ci
        src = os.path.join(work, "%s_%03d.cpp" % (cfg, i))
        exe = src[:-4]
        with open(src, "w") as f:
            f.write(driver_source(chunk))
        e = compile_driver(libdir, cfg, src, exe, opt)
        fails = []
        loc = {"compared": 0, "skipped": 0, "programs": 0}
        if e is not None:
            # find the programs that do not compile; the others still run
            good = []
            for p in chunk:
                s1 = os.path.join(work, "%s_%03d_one.cpp" % (cfg, i))
                with open(s1, "w") as f:
                    f.write(driver_source([p]))
                e1 = compile_driver(libdir, cfg, s1, s1[:-4], opt)
                if e1 is not None:
                    m = re.search(r"[^\n]*error:[^\n]*", e1)
                    fails.append(Failure(p, "compile", "does not compile: " + (m.group(0) if m else e1[-500:]), cfg))
                    if len(fails) >= 3:
                        return fails, loc
                else:
                    good.append(p)
            chunk = good
            if not chunk:
                return fails, loc
            with open(src, "w") as f:
                f.write(driver_source(chunk))
            e = compile_driver(libdir, cfg, src, exe, opt)
            if e is not None:
                raise CheckError("driver does not compile: " + e[-2000:])
        start = 0
        while start < len(chunk):
            out, rc = run_driver(exe, start)
            obs, last, done = parse_output(out)
            for j in range(start, len(chunk)):
                p = chunk[j]
                if p.id not in obs:
                    break
                crashed = not done and last is not None and last[0] == p.id
                if crashed:
                    # a violation only if the behaviour crashes on its own, too
                    fails.append(Failure(p, "crash", "ended abnormally (%s) at step %s" % (rc, last[1]), cfg, src))
                    break
                d = check_obs(p, obs[p.id], is_float, loc)
                loc["programs"] += 1
                if d:
                    fails.append(Failure(p, "mismatch", d, cfg, src))
            if done:
                break
            if last is None:
                raise CheckError("driver produced nothing: rc=%s" % rc)
            start = [q.id for q in chunk].index(last[0]) + 1
        os.unlink(exe)
        return fails, loc
    fails = []
    for f, loc in parallel(one, list(enumerate(chunks))):
        fails += f
        for k, v in loc.items():
            stats[k] = stats.get(k, 0) + v
    # confirm every failure by building and running the behaviour again on its own
    res = []
    for k, f in enumerate(fails):
        if len(res) >= 20:
            break
        src = os.path.join(work, "%s_confirm_%d.cpp" % (cfg, f.prog.id))
        with open(src, "w") as fh:
            fh.write(driver_source([f.prog]))
        e = compile_driver(libdir, cfg, src, src[:-4], opt)
        f.source = src
        if f.kind == "compile":
            if e is not None:
                res.append(f)
            continue
        if e is not None:
            raise CheckError("confirmation build failed: " + e[-1000:])
        out, rc = run_driver(src[:-4], 0)
        obs, last, done = parse_output(out)
        if not done:
            f.detail = "ended abnormally (%s) at step %s" % (rc, last[1] if last else "?")
            f.kind = "crash"
            res.append(f)
        else:
            d = check_obs(f.prog, obs.get(f.prog.id, {}), is_float, {"compared": 0, "skipped": 0})
            if d:
                f.detail = d
                res.append(f)
            else:
                # only with its predecessors in the same process: re-run the whole driver
                f.detail += " (only after the other behaviours of %s)" % os.path.basename(src)
                res.append(f)
        os.unlink(src[:-4])
    return res
