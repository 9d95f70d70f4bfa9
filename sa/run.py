#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough]
exit 0: property held; 1: VIOLATION; 2: the analysis could not answer."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import core


def run_one(pid, tier, ctx=None):
    mod = importlib.import_module("checks." + pid.lower())
    chk = None
    try:
        chk = core.Check(pid, tier, ctx)
        mod.check(chk)
        if not chk.obl:
            raise core.AnalysisBroken("no obligation was examined")
    except core.AnalysisBroken as e:
        if chk is not None and chk.viol:
            # a definite violation found before the analysis lost an anchor
            print("note: analysis incomplete: %s" % e)
        else:
            print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
            return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    kn = core.known(pid)
    new = [v for v in chk.viol if v["key"] not in kn]
    for v in chk.viol:
        if v["key"] in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, kn[v["key"]]["what"]))
    core.write_evidence(chk, getattr(mod, "LEVEL", "other"), mod.EXPLANATION, tier, len(chk.viol))
    print("%s: %d obligations, %d violated (%d known); %d functions; %s" % (
        pid, len(chk.obl), len(chk.viol), len(chk.viol) - len(new), len(chk.functions),
        ", ".join("%s=%d" % kv for kv in sorted(chk.counts.items()))))
    if new:
        d = os.path.join(core.VERIF, "evidence")
        p = os.path.join(d, pid + ".violation.json")
        json.dump(new, open(p, "w"), indent=1)
        for v in new:
            print("%s:%s: in %s: %s  [%s]" % (v["file"], v["line"], v["function"], v["message"], v["key"]))
            if v["path"]:
                print("    path: " + " -> ".join(v["path"][-14:]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    return 0


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    tier = "thorough" if "thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        a = [x for x in a if x != tier]
    if len(a) == 1:
        sys.exit(run_one(a[0], tier))
    # several properties on one build (development)
    ctx = core.Ctx()
    rc = 0
    for pid in a or sorted(f[:-3].upper() for f in os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks")) if f.startswith("p") and f.endswith(".py")):
        r = run_one(pid, tier, ctx)
        if r:
            print("##", pid, "exit", r)
        rc = max(rc, r)
    sys.exit(rc)
