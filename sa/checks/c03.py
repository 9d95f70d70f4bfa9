"""C03 waiting threads re-check what they waited for and are not left asleep"""
import flow, locks
from util import *
EXPLANATION = ("The condition each pthread_cond_wait stands for is derived from the values known at the wait; every function that "
               "changes it is then followed on every path (helpers inlined): the change is made with the mutex held, a change "
               "that can end the wait is signalled in or after the same critical section, and a thread that wakes up tests the condition again.")


class Find(flow.Spec):
    """what is known of the fields when waiting"""

    def __init__(self, m):
        self.m = m
        self.preds = {}

    def on_call(self, E, st, I, name, args):
        if name in locks.WAIT:
            cc, mc = E.pclass(I.ops[0]), E.pclass(I.ops[1])
            if cc is None or mc is None:
                raise AnalysisBroken("condition variable of %s is not a field" % where(I))
            base = ("s", args[0][1], args[0][2] - cc[1]) if cc[0] != "g" else None
            flds = {}
            for (sym, o), (v, n, cls) in st.mem.items():
                if cls and cls[0] == cc[0] and (sym, o) != (args[0][1], args[0][2]):
                    flds[cls] = v
            found = []
            for c, v in flds.items():
                k = E.const(st, v)
                if k is not None:
                    found.append((c, ("const", k)))
                elif v[0] == "s" and -64 < st.hi(v) < 64:
                    found.append((c, ("const", st.hi(v))))
            for c, v in flds.items():
                for d, w in flds.items():
                    if c != d and E.const(st, v) is None and E.decide(st, "sge", v, w) is True:
                        found.append((c, ("field", d)))
            self.preds.setdefault((cc, mc), []).append((I, found))
            E.havoc(st, args, None)
            return [(st, E.fresh(st, I))]
        if name in locks.LOCK or name in locks.UNLOCK:
            return [(st, E.fresh(st, I))]
        return None


class Use(flow.Spec):
    """prop: (held, signalled since locked, pending change, woken: None / tuple of values loaded since)"""

    def __init__(self, chk, m, root, cc, mc, preds):
        self.chk, self.m, self.root, self.cc, self.mc, self.preds = chk, m, root, cc, mc, preds
        self.stores = set()

    def init(self, E, st):
        return (0, False, None, None)

    def prop_syms(self, p):
        return tuple(v[1] for v in p[3] or () if v[0] == "s")

    def prop_rename(self, p, mm):
        return p[:3] + (None if p[3] is None else tuple(flow.subst(v, mm) for v in p[3]),)

    def prop_drop(self, p, sym):
        return p[:3] + (None if p[3] is None else tuple(v for v in p[3] if v[0] == "s" and sym not in flow.leaves(v[1]) and v[1] != sym),)

    def bad(self, E, st, I, key, msg):
        self.chk.violation("%s:%s" % (self.root, key), I.file, I.line, E.f.name, msg, E.path(st, I))

    def on_call(self, E, st, I, name, args):
        p = st.prop
        if name in locks.LOCK and E.pclass(I.ops[0]) == self.mc:
            if I.id not in E.used:
                st.prop = (1, False) + p[2:]
                return [(st, ("c", 0))]
            a, b = st.copy(), st
            a.prop = (1, False) + p[2:]
            v = E.fresh(b, I)
            b.ne = b.ne | {(v[1], 0)}
            return [(a, ("c", 0)), (b, v)]
        if name in locks.UNLOCK and E.pclass(I.ops[0]) == self.mc:
            st.prop = (0, False, None if p[1] else p[2], None)
            return [(st, E.fresh(st, I))]
        if name in locks.WAIT:
            if E.pclass(I.ops[0]) == self.cc:
                E.havoc(st, args, None)
                st.prop = (p[0], False, p[2], ())
            return [(st, E.fresh(st, I))]
        if name in ("pthread_cond_signal", "pthread_cond_broadcast") and E.pclass(I.ops[0]) == self.cc:
            st.prop = (p[0], p[0] == 1, None, p[3])
            return [(st, E.fresh(st, I))]
        return None

    def on_load(self, E, st, I, addr, cls):
        if st.prop[3] is not None and cls in self.preds:
            self.loading = cls

    def load_value(self, E, st, I, addr, size, cls):
        if st.prop[3] is not None and cls in self.preds:
            v = E.peek(st, addr)
            if v is None or v[0] != "s":
                v = E.fresh(st, I)
            st.prop = st.prop[:3] + ((st.prop[3] + (v,))[-3:],)
            return v
        return None

    def on_branch(self, E, st, I, v, t):
        w = st.prop[3]
        if w:
            syms = set()
            for s in flow.vsyms(v):
                syms.add(s)
                syms |= flow.leaves(s)
            if any(x[1] in syms for x in w if x[0] == "s"):
                st.prop = st.prop[:3] + (None,)

    on_select = on_branch

    def on_store(self, E, st, I, addr, val, cls):
        if cls not in self.preds:
            return
        p = st.prop
        self.stores.add(where(I))
        kind = self.preds[cls]
        if p[3] is not None:
            self.bad(E, st, I, "norecheck", "acts after waiting without testing again what it waited for")
        if not p[0]:
            self.bad(E, st, I, "unheld", "what other threads wait for is changed without holding the mutex")
        old = E.peek(st, addr)
        if old is not None and (kind[0] == "const" and self.step(old, val) < 0 or kind[0] == "field" and self.step(old, val) > 0):
            return
        if old is not None and kind[0] == "const" and E.decide(st, "slt", val, old) is True:
            return
        if old is not None and kind[0] == "field" and E.decide(st, "sgt", val, old) is True:
            return
        if kind[0] == "const" and E.const(st, val) == kind[1]:
            return
        if not p[1]:
            st.prop = p[:2] + (where(I), p[3])

    @staticmethod
    def step(old, val):
        """sign of a constant step from old to val"""
        if val[0] == "s" and old[0] == "s":
            if val[1] == old[1]:
                return val[2] - old[2]
            x = val[1]
            if val[2] == 0 and x[0] == "op" and x[1] in ("add", "sub") and x[2] == old and x[3][0] == "c":
                return x[3][1] if x[1] == "add" else -x[3][1]
        return 0

    def on_ret(self, E, st, I, val):
        p = st.prop
        if p[2] and not p[1]:
            self.bad(E, st, I, "nosignal", "returns without signalling the change made at %s that a thread may be waiting for" % p[2])


def setup(m, live, cc, mc):
    """callers of every function, functions that only set up or tear down, functions that lock"""
    initd = {f.name for f in m.funcs() if any(J.x in ("pthread_cond_init", "pthread_cond_destroy") and
                                              flow.Engine.pclass(None, J.ops[0]) == cc for J in f.calls())}
    lockers = {f.name for f in m.funcs() if f.name in live and any(
        J.x in locks.LOCK and flow.Engine.pclass(None, J.ops[0]) == mc for J in f.calls())}
    initlike = set()
    for n in initd:
        initlike |= callees_closure(m, [n])
    # setting up and tearing down: functions that are only used from there
    callers = {}
    for f in m.funcs():
        for J in f.calls():
            if J.x:
                callers.setdefault(J.x, set()).add(f.name)
    ctor = set(initd)
    ch = True
    while ch:
        ch = False
        for n in initlike - ctor - lockers:
            if callers.get(n) and callers[n] <= ctor:
                ctor.add(n)
                ch = True
    return callers, ctor, lockers


def check(chk):
    m = chk.nbspd
    mods = chk.ctx.mods()
    chk.rule = "wait in a loop on a tested condition; changes under the mutex; changes that can end the wait are signalled"
    live = live_funcs(m)
    preds, cond = {}, {}
    for f in list(m.funcs()):
        if f.name in live and any(I.x in locks.WAIT for I in f.calls()):
            s = Find(m)
            chk.run_flow(flat(chk, m, f.name, set()), s, mods=mods)
            for k, l in s.preds.items():
                for I, found in l:
                    chk.count("wait sites")
                    # what is known at every wait on this condition
                    cond.setdefault(k, []).append((I, f.name, dict(found)))
    for k, l in cond.items():
        common = set(l[0][2].items())
        for I, fn, d in l:
            common &= set(d.items())
        # a field nobody changes is no condition
        ctor = setup(m, live, *k)[1]
        stored = {flow.Engine.pclass(None, J.ops[1]) for f in m.funcs() if f.name in live and f.name not in ctor
                  for J in f.instrs() if J.op == "store"}
        common = {c: p for c, p in common if c in stored}
        if not common:
            for I, fn, d in l:
                chk.violation("%s:nocond" % fn, I.file, I.line, fn, "waits without having tested any condition")
        for I, fn, d in l:
            chk.ok("waits for %s" % sorted(common), where(I))
        preds[k] = common
    for (cc, mc), P in preds.items():
        # functions that change it, or lock for it; judged in the function that takes the lock
        direct = {f.name for f in m.funcs() if f.name in live and any(
            (J.op == "store" and flow.Engine.pclass(None, J.ops[1]) in P) or
            (J.op == "call" and J.x in locks.LOCK and flow.Engine.pclass(None, J.ops[0]) == mc)
            for J in f.instrs())}
        callers, ctor, lockers = setup(m, live, cc, mc)
        # a function that changes the condition without locking is judged in its callers
        roots, todo, seen = set(), sorted(direct - ctor), set()
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            cs = callers.get(n, set()) & live
            haslock = n in lockers
            if haslock or not cs or n in m.address_taken():
                roots.add(n)
            else:
                todo += sorted(cs - ctor)
        for n in sorted(roots):
            s = Use(chk, m, n, cc, mc, P)
            chk.run_flow(flat(chk, m, n, set()), s, mods=mods)
            chk.count("changes of a condition", len(s.stores))
            chk.ok("changes of the condition %s are made and signalled under the mutex" % (sorted(x[0] for x in P),), n)
        chk.count("conditions")
    chk.atleast("wait sites", 3)
    chk.atleast("conditions", 3)
    chk.atleast("changes of a condition", 5)
