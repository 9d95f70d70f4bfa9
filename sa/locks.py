"""Lock analysis shared by C01 (balance), C02 (order), C03 (waits), C04 (cancellation)."""
import flow, ir
from core import AnalysisBroken
from util import *

LOCK = {"pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_timedlock"}
UNLOCK = {"pthread_mutex_unlock"}
WAIT = {"pthread_cond_wait": 1, "pthread_cond_timedwait": 1}


def retclass(E, st, v):
    if v is None:
        return "void"
    t = E.truth(st, v)
    return "any" if t is None else ("nonzero" if t else "zero")


class LockSpec(flow.Spec):
    """prop: frozenset of (mutex value, file:line of acquisition)"""

    def __init__(self, chk, errcheck=()):
        self.chk = chk
        self.errcheck = errcheck     # classes of error-checking mutexes (an unlock by a stranger just fails)
        self.rets = {}
        self.events = []
        self.unheld = []
        self.double = []
        self.waits = []
        self.under = {}

    def init(self, E, st):
        return frozenset()

    def prop_key(self, p):
        return p

    def prop_syms(self, p):
        return tuple(x[0][1] for x in p if x[0][0] == "s")

    def prop_drop(self, p, sym):
        return p

    def on_call(self, E, st, I, name, args):
        if name in LOCK:
            m = args[0]
            if any(h[0] == m for h in st.prop) and name == "pthread_mutex_lock":
                self.double.append((I, E.path(st, I)))
            a, b = st.copy(), st
            for h in st.prop:
                self.events.append(("order", h, m, I))
            a.prop = a.prop | {(m, "%s:%d" % (I.file, I.line))}
            if I.id not in E.used:
                return [(a, ("c", 0))]      # result ignored: a plain lock of a valid mutex
            v = E.fresh(b, I)
            b.ne = b.ne | {(v[1], 0)}
            return [(a, ("c", 0)), (b, v)]
        if name in UNLOCK:
            m = args[0]
            hit = [h for h in st.prop if h[0] == m]
            if not hit and E.pclass(I.ops[0]) not in self.errcheck:
                self.unheld.append((I, E.path(st, I)))
            st.prop = st.prop - set(hit)
            return [(st, E.fresh(st, I))]
        if name in WAIT:
            m = args[1]
            held = any(h[0] == m for h in st.prop)
            others = [h for h in st.prop if h[0] != m]
            self.waits.append((I, held, bool(others), E.path(st, I)))
            # the protected data may change while waiting
            E.havoc(st, args, None)
            return [(st, E.fresh(st, I))]
        if name and st.prop:
            self.under.setdefault(name, []).append((I, st.prop))
        return None

    def on_ret(self, E, st, I, val):
        self.rets.setdefault(retclass(E, st, val), {}).setdefault(st.prop, (I, E.path(st, I)))


def errorcheck_classes(m):
    r = set()
    for f in m.funcs():
        attrs = {I.ops[0].v.id for I in f.calls("pthread_mutexattr_settype")
                 if I.ops[0].kind == "i" and I.ops[1].kind == "c" and I.ops[1].v == 2}
        for I in f.calls("pthread_mutex_init"):
            if I.ops[1].kind == "i" and I.ops[1].v.id in attrs:
                c = flow.Engine.pclass(None, I.ops[0])
                if c:
                    r.add(c)
    return r


def lock_funcs(m, extra=()):
    out = []
    for f in m.funcs():
        for I in f.calls():
            if I.x in LOCK or I.x in UNLOCK or I.x in WAIT or I.x in extra:
                out.append(f.name)
                break
    return out


class LockAnalysis:
    """Analyse every function that locks.  A function whose net effect is not
    empty but is determined by its result (a lock or unlock helper, or a
    function that returns with the lock for its caller) is inlined into its
    callers and judged there; statics are always inlined."""

    def __init__(self, chk, rel="src/nbspd"):
        self.chk = chk
        m = chk.ctx.opt(rel)
        mods = chk.ctx.mods(rel)
        self.errcheck = errorcheck_classes(m)
        self.wrappers = set()
        self.results = {}
        self.problems = []
        callers, addr = {}, set()
        for f in m.funcs():
            for I in f.instrs():
                if I.op == "call" and I.x:
                    callers.setdefault(I.x, set()).add(f.name)
                for v in (I.ops if I.op not in ("phi",) else [x for x, _ in I.ops]):
                    if v.kind == "f" and not (I.op == "call" and v.v == I.x):
                        addr.add(v.v)
        self.callers, self.addr = callers, addr
        self.names = {f.name: f for f in m.funcs()}
        self.static = {f.name for f in m.funcs() if f.internal}
        # functions nobody calls are not part of the program
        live = callees_closure(m, ["main"] + sorted(addr))
        todo = set(lock_funcs(m)) & live
        for rnd in range(8):
            work = sorted(todo - set(self.results))
            if not work:
                break
            for n in work:
                r = self.analyse(m, mods, n)
                self.results[n] = r
            # classify
            new = set()
            for n in work:
                s = self.results[n]
                eff = {p for d in s.rets.values() for p in d}
                if s.unheld or any(p for p in eff):
                    if (callers.get(n) and n not in addr):
                        new.add(n)
            if not new:
                break
            self.wrappers |= new
            for n in new:
                for c in callers[n]:
                    self.results.pop(c, None)
                    if c in live:
                        todo.add(c)

    def analyse(self, m, mods, n):
        f = ir.Inliner(m, lambda x: x not in self.wrappers).run(n)
        s = LockSpec(self.chk, self.errcheck)
        self.chk.run_flow(f, s, mods=mods)
        s.func = f
        return s

    def roots(self):
        """functions judged: those whose callers do not take over the effect"""
        return {n: s for n, s in self.results.items() if n not in self.wrappers}


def mutex_class(m, E_or_func, v, I):
    pass
