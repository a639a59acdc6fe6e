#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decide one property.

Exit 0: it held on everything explored.  Exit 1 with a VIOLATION line: it is
broken.  Exit 2: the check itself failed."""
import json, os, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, plan
from core import CheckError, BuildFailure

FINDINGS = os.path.join(core.VERIF, "known-findings.txt")


def known(prop):
    """Entries `finding: property=<id> key=<behaviour key> <text>'"""
    res = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            f = line.split()
            if line.startswith("finding:") and "property=" + prop in f:
                key = [w[4:] for w in f if w.startswith("key=")]
                if key:
                    res[key[0]] = line.strip()
    return res


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = os.path.join(core.BUILD, "work-%s-%s-%d" % (prop, tier, os.getpid()))
    os.makedirs(work, exist_ok=True)
    ctx = plan.Context(prop, tier, seed, work)
    failures = []
    try:
        for step in plan.CHECKS[prop]:
            failures += step(ctx)
            if len(failures) >= 3:
                break
    except BuildFailure as e:
        failures.append(plan.Report("the public interface does not compile: %s" % e, str(e)))
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    os.makedirs(core.EVID, exist_ok=True)
    rdir = os.path.join(core.EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    kn = known(prop)
    violations, seen = [], set()
    for i, f in enumerate(failures):
        if f.key in kn:
            if f.key not in seen:
                seen.add(f.key)
                print("KNOWN-FINDING: property=%s %s" % (prop, f.summary))
            continue
        path = os.path.join(rdir, "%s-%s-%d.txt" % (prop, tier, i))
        with open(path, "w") as fh:
            fh.write(f.text())
        violations.append(dict(replay=path, what=f.summary))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=ctx.states, transitions=ctx.transitions,
                            traces_validated_against_impl=ctx.traces, samples=ctx.samples[:3],
                            observations_compared=ctx.stats.get("compared", 0),
                            observations_unspecified=ctx.stats.get("skipped", 0),
                            runs=ctx.log),
              assumptions=["the reference numbers of spec/Num.tla (IEEE doubles with an error bound, java/Num.java)",
                           "user programs stay inside the usage described in DESIGN.md",
                           "g++ and the C++ runtime are correct"],
              wall_s=round(time.time() - t0, 1), violations=violations)
    with open(os.path.join(core.EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in violations:
        print("  " + v["what"])
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    print("%s %s: %d behaviours replayed, %d observations compared, %d states, %.1f s: %s" % (
        prop, tier, ctx.traces, ctx.stats.get("compared", 0), ctx.states, time.time() - t0,
        "violated" if violations else "held"))
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
