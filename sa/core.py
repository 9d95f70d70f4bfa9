"""Common parts of the checks: program loading, obligations, findings,
known findings, evidence."""
import json, os, re, sys, time, traceback
import frontend, ir, flow
from frontend import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    """The programs of the current tree, as IR."""

    def __init__(self):
        self.build = frontend.Build()
        self._mods, self._ms, self._opt = {}, {}, {}

    def program(self, rel="src/nbspd"):
        if rel not in self._mods:
            p = self.build.link("prog_" + rel.replace("/", "_"), self.build.program(rel))
            self._mods[rel] = ir.Module(p)
        return self._mods[rel]

    def opt(self, rel="src/nbspd"):
        """the program with locals in SSA form (no inlining)"""
        if rel not in self._opt:
            m = self.program(rel).clone()
            m.passes("function(sroa<modify-cfg>,simplifycfg)")
            m._di = self.program(rel).di()
            self._opt[rel] = m
        return self._opt[rel]

    def mods(self, rel="src/nbspd"):
        if rel not in self._ms:
            self._ms[rel] = flow.mod_summaries(self.opt(rel))
        return self._ms[rel]

    def programs(self):
        return [self.build.rel(l) for l in self.build.links]


class Check:
    def __init__(self, pid, tier, ctx=None):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.ctx = ctx or Ctx()
        self.obl = []            # (what, where, status)
        self.viol = []
        self.counts = {}
        self.functions = set()
        self.rule = ""
        self.notes = []
        self.truncated = []

    thorough = property(lambda s: s.tier == "thorough")

    # ---- programs
    @property
    def nbspd(self):
        return self.ctx.opt("src/nbspd")

    def need(self, m, *names):
        """anchors: functions that must exist"""
        for n in names:
            if not m.has(n):
                raise AnalysisBroken("anchor function %s not found" % n)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def atleast(self, what, n):
        if self.counts.get(what, 0) < n:
            raise AnalysisBroken("only %d instances of '%s', expected at least %d" % (self.counts.get(what, 0), what, n))

    def ok(self, what, where=""):
        self.obl.append((what, where, "held"))

    def violation(self, key, file, line, func, msg, path=None):
        """key: stable identity of the construct (not a line number)"""
        self.obl.append((msg, "%s:%s" % (file, line), "violated"))
        for v in self.viol:
            if v["key"] == key:
                return
        self.viol.append({"key": key, "file": file, "line": line, "function": func, "message": msg,
                          "path": path or []})

    def run_flow(self, func, spec, **kw):
        self.functions.add(func.name)
        kw.setdefault("K", 64 if self.thorough else 24)
        kw.setdefault("KL", 8 if self.thorough else 3)
        kw.setdefault("max_steps", 6000000 if self.thorough else 1200000)
        e = flow.Engine(func, spec, **kw).run()
        self.count("instructions interpreted", e.steps)
        self.count("joins", e.joins)
        if e.truncated:
            raise AnalysisBroken("state budget exhausted in %s" % func.name)
        return e


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    r = {}
    for e in json.load(open(p))["findings"]:
        if e["property"] == pid and e["status"] == "known":
            r[e["key"]] = e
    return r


def write_evidence(chk, level, expl, tier, nviol):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    held = sum(1 for o in chk.obl if o[2] == "held")
    samples = [{"rule": o[0], "where": o[1], "status": o[2]} for o in chk.obl[:80]]
    ev = {"property": chk.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": {"explanation": expl, "rule": chk.rule, "functions": sorted(chk.functions)[:300],
                       "functions_analysed": len(chk.functions), "counts": chk.counts,
                       "obligations": len(chk.obl), "discharged": held, "violated": nviol,
                       "obligation_list": samples, "notes": chk.notes},
          "wall_s": round(time.time() - chk.t0, 2)}
    p = os.path.join(d, chk.pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
