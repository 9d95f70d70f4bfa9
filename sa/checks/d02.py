"""D02 signals: blocked before any thread exists, waited for by one thread, stop signals set the quit flag"""
import flow
from util import *

EXPLANATION = ("main() is interpreted up to its end with the signal mask and the contents of signal sets as state; every thread it creates is judged by the mask at that point. "
               "The thread that waits for signals is interpreted with each signal of its set; what it sets for it is compared with what get_quit_flag and get_hup_flag read.")
STOP = {"SIGINT": 2, "SIGQUIT": 3, "SIGABRT": 6, "SIGTERM": 15}
OTHER = {"SIGHUP": 1, "SIGPIPE": 13, "SIGALRM": 14}
NAME = {v: k for k, v in {**STOP, **OTHER}.items()}
ALL = frozenset(range(1, 65))
SETS = {"sigemptyset", "sigfillset", "sigaddset", "sigdelset"}
MASK = {"pthread_sigmask", "sigprocmask"}
WAIT = {"sigwait", "sigwaitinfo", "sigtimedwait"}
NAMES = ("mask", "sets", "made", "pend", "quit", "hup")


class P(tuple):
    def __getattr__(self, n):
        return self[NAMES.index(n)]

    def set(self, **kw):
        return P(kw.get(n, v) for n, v in zip(NAMES, self))


class S(flow.Spec):
    def __init__(self, m, bad, good):
        self.m, self.bad, self.good = m, bad, good
        self.sets0 = frozenset()
        self.found = {}
        self.waits = 0

    def init(self, E, st):
        return P((frozenset(), self.sets0, frozenset(), 0, False, False))

    def prop_syms(self, p):
        return [k[0] for k, _ in p.sets]

    def prop_rename(self, p, m):
        return p

    def state_key(self, E, st, b):
        return (st.prop, frozenset((i, v) for i, v in st.env.items() if v[0] == "c" and 0 <= v[1] < 64))

    def fail(self, k, E, st, I, msg):
        self.bad.setdefault((I.fn.name, k, where(I)), (I, E.path(st, I), msg))

    def ok(self, what, I):
        self.good[(what, where(I))] = I

    def of(self, p, a):
        if a[0] == "s":
            for k, v in p.sets:
                if k == (a[1], a[2]):
                    return v
        return None

    def on_load(self, E, st, I, addr, cls):
        if self.phase == "main" and addr[0] == "s" and (addr[1], addr[2]) in self.qloc:
            # the stop may be asked for at any time
            a = st.copy()
            st.mem[(addr[1], addr[2])] = (("c", 0), I.x, cls)
            a.mem[(addr[1], addr[2])] = (("c", 1), I.x, cls)
            return [st, a]
        return None

    def load_value(self, E, st, I, addr, size, cls):
        if addr[0] == "s" and addr[1][0] == "g" and addr[1][1] != "g":
            t = self.m.intarray(addr[1][1])
            if t and t[0] == size and addr[2] % size == 0 and 0 <= addr[2] // size < len(t[1]):
                return ("c", t[1][addr[2] // size])
        if self.phase == "thread" and addr[0] == "s" and (addr[1], addr[2]) in self.qloc and not st.prop.quit:
            return E.fresh(st, I)
        return None

    def on_store(self, E, st, I, addr, val, cls):
        if self.phase != "thread" or addr[0] != "s":
            return None
        k = (addr[1], addr[2])
        on = E.decide(st, "ne", val, ("c", 0)) is True
        if k in self.qloc:
            if on and st.prop.pend in OTHER.values():
                self.fail("stops:%d" % st.prop.pend, E, st, I, "%s makes the program end" % NAME[st.prop.pend])
            st.prop = st.prop.set(quit=on)
        elif k in self.hloc:
            st.prop = st.prop.set(hup=on)
        return None

    def settle(self, E, st, I):
        """the signal received last has been dealt with"""
        p = st.prop
        if p.pend in STOP.values():
            if not p.quit:
                self.fail("lost:%d" % p.pend, E, st, I, "%s was received and the flag that makes the threads end was not set" % NAME[p.pend])
            else:
                self.found[p.pend] = I
        elif p.pend == 1:
            if not p.hup:
                self.fail("lost:1", E, st, I, "SIGHUP was received and the request to reopen was not recorded")
            else:
                self.found[1] = I
        elif p.pend:
            self.found[p.pend] = I
        st.prop = p.set(pend=0)

    def on_call(self, E, st, I, name, args):
        p = st.prop
        if name in SETS:
            if args[0][0] != "s":
                raise AnalysisBroken("the signal set is not known at %s" % where(I))
            k = (args[0][1], args[0][2])
            old = self.of(p, args[0]) or frozenset()
            if name in ("sigaddset", "sigdelset"):
                n = E.const(st, args[1])
                if n is None and name == "sigaddset":
                    return [(st, ("c", 0))]      # no certain member
                if n is None:
                    old = frozenset()
                new = old | {n} if name == "sigaddset" else old - {n}
            else:
                new = ALL if name == "sigfillset" else frozenset()
            st.prop = p.set(sets=frozenset(x for x in p.sets if x[0] != k) | {(k, new)})
            return [(st, ("c", 0))]
        if name in MASK:
            how, s = E.const(st, args[0]), self.of(p, args[1])
            nul = E.isnull(st, args[1]) if args[1][0] == "s" else args[1] == ("c", 0)
            if nul:
                return None
            b = st.copy()
            if how == 0:
                st.prop = p.set(mask=p.mask | (s or frozenset()))
            elif how == 1:
                st.prop = p.set(mask=p.mask - (ALL if s is None else s))
            else:
                st.prop = p.set(mask=s or frozenset())
            return [(st, ("c", 0)), (b, ("c", 22 if name == "pthread_sigmask" else -1))]
        if self.phase == "thread":
            if name in WAIT:
                self.settle(E, st, I)
                s = self.of(st.prop, args[0])
                if s is None:
                    self.fail("set", E, st, I, "what signals are waited for is not known")
                    return None
                self.waits += 1
                for n in sorted(set(STOP.values()) - s):
                    self.fail("unwaited:%d" % n, E, st, I, "%s is not among the signals that are waited for" % NAME[n])
                out = [(st.copy(), ("c", 4 if name == "sigwait" else -1))]
                for n in sorted(s & set(NAME)):
                    x = st.copy()
                    x.prop = x.prop.set(pend=n, quit=False, hup=False)
                    if name == "sigwait":
                        E.store(x, args[1], ("c", n), 4, None)
                        out.append((x, ("c", 0)))
                    else:
                        out.append((x, ("c", n)))
                return out
            return None
        if name == "pthread_create" or name in self.creates:
            miss = sorted(set(NAME) - p.mask)
            root = I.ops[2].v if name == "pthread_create" and I.ops[2].kind == "f" else name
            if miss:
                self.fail("unblocked:" + root, E, st, I, "the thread %s is created while %s is not blocked: it may be delivered to it instead of the thread that waits for signals" % (root, NAME[miss[0]]))
            elif root in self.sig:
                self.ok("the thread that waits for signals is created with them blocked", I)
                self.at.append(p.sets)
            else:
                self.ok("created with the signals blocked", I)
            if root in self.sig and "other" in p.made or root not in self.sig and "sig" not in p.made:
                self.fail("nowait:" + root, E, st, I, "the thread %s is created before there is one that waits for signals" % root)
            a, b = st.copy(), st.copy()
            a.prop = p.set(made=p.made | {"sig" if root in self.sig else "other"})
            if name != "pthread_create":
                return None if not I.w else [(a, E.fresh(a, I))]
            return [(a, ("c", 0)), (b, ("c", 11))]
        if name == "daemon":
            if p.made:
                self.fail("daemon", E, st, I, "the process detaches (continues as a child without its threads) after a thread was created")
            else:
                self.ok("the process detaches before any thread is created", I)
        if name in ("signal", "sigaction", "bsd_signal", "sigset") and p.made:
            n = E.const(st, args[0])
            if n in STOP.values() and (name == "sigaction" or E.const(st, args[1]) != 0):
                self.fail("handler", E, st, I, "the action of %s is changed although a thread waits for it" % NAME[n])
        return None

    def on_ret(self, E, st, I, val):
        if self.phase == "thread":
            self.settle(E, st, I)

    def on_exit(self, E, st, I, name):
        if self.phase == "thread" and st.prop.pend in OTHER.values():
            self.fail("stops:%d" % st.prop.pend, E, st, I, "%s makes the program end" % NAME[st.prop.pend])


def cell(m, name):
    if not m.has(name):
        raise AnalysisBroken("function %s not found" % name)
    r = set()
    for g in callees_closure(m, [name]):
        f = m.func(g)
        for I in f.instrs():
            if I.op == "load" and I.ops[0].kind == "g" and I.x == 4:
                r.add((("g", I.ops[0].v), 0))
    if len(r) != 1:
        raise AnalysisBroken("the flag that %s reads is not known" % name)
    return r


def check(chk):
    m, mods = chk.nbspd, chk.ctx.mods()
    chk.rule = ("the signals are blocked when a thread is created; a thread that waits for them exists before any other; for each stop signal it sets the flag that get_quit_flag "
                "reads, for SIGHUP the one that get_hup_flag reads; other signals do not end the program; the flag is not cleared")
    roots = thread_roots(m)
    sig = {t for t in roots if callees_closure(m, [t]) and any(I.x in WAIT for g in callees_closure(m, [t]) for I in m.func(g).calls())}
    chk.counts["threads"] = len(roots)
    chk.atleast("threads", 5)
    bad, good = {}, {}
    mf = m.func("main")
    if not sig:
        chk.violation("main:none", mf.file if hasattr(mf, "file") else "main.c", 0, "main", "no thread waits for signals", [])
        return
    qloc, hloc = cell(m, "get_quit_flag"), cell(m, "get_hup_flag")
    # the quit flag is only ever set
    n = 0
    for f in sorted(live_funcs(m)):
        for I in m.func(f).instrs():
            if I.op == "store" and I.ops[1].kind == "g" and (("g", I.ops[1].v), 0) in qloc:
                n += 1
                if I.ops[0].kind == "c" and I.ops[0].v == 0:
                    chk.violation("%s:cleared" % f, I.file, I.line, f, "the flag that makes the threads end is cleared", [])
                else:
                    chk.ok("the flag that makes the threads end is set", where(I))
    # no thread lets the signals through
    for t in sorted(roots):
        for g in sorted(callees_closure(m, [t], refs=True)):
            for I in m.func(g).calls():
                if I.x in MASK and not (I.ops[0].kind == "c" and I.ops[0].v == 0) and t not in sig:
                    chk.violation("%s:mask" % g, I.file, I.line, g, "the thread %s changes its signal mask: signals may be delivered to it" % t, [])
                if I.x in WAIT and t not in sig:
                    chk.violation("%s:wait" % g, I.file, I.line, g, "the thread %s takes signals" % t, [])
        chk.ok("the signals stay blocked", t)
    inl = callers_closure(m, SETS | MASK | WAIT | {"pthread_create", "daemon", "signal", "sigaction"})
    inl |= {x for x in ("set_quit_flag", "get_quit_flag", "get_hup_flag") if m.has(x)}
    tcl = callers_closure(m, {I.x for f in m.funcs() for I in f.calls() if I.x and I.x.startswith("Tcl_")})
    down = set()
    for t in sig:
        down |= callees_closure(m, [t])
    s = S(m, bad, good)
    s.phase, s.qloc, s.hloc, s.sig, s.at, s.creates = "main", qloc, hloc, sig, [], set()
    E = flow.Engine(flat(chk, m, "main", lambda n: n not in inl), s, mods=mods, K=12, KL=16, max_steps=600000)
    E.run()
    if E.truncated:
        raise AnalysisBroken("main")
    if not s.at and not bad:
        chk.violation("main:none", "main.c", 0, "main", "the thread that waits for signals is never created", [])
    waits = 0
    for t in sorted(sig):
        for sets in sorted(set(s.at), key=repr) or [frozenset()]:
            x = S(m, bad, good)
            x.sets0 = frozenset(k for k in sets if k[0][0][0] == "g")
            x.phase, x.qloc, x.hloc, x.sig, x.creates = "thread", qloc, hloc, sig, set()
            F = flat(chk, m, t, lambda n: n not in down and n not in inl)
            E = flow.Engine(F, x, mods=mods, K=24, KL=16, max_steps=300000)
            E.run()
            if E.truncated:
                raise AnalysisBroken(t)
            waits += x.waits
            for n, I in x.found.items():
                good[("%s is dealt with" % NAME[n], where(I))] = I
    chk.counts["states in which signals are waited for"] = waits
    if not bad:
        chk.atleast("states in which signals are waited for", 1)
    loops(chk, m, mods, bad, good, qloc, sig)
    for k, I in good.items():
        chk.ok(*k)
    for k, (I, path, msg) in bad.items():
        chk.violation("%s:%s" % k[:2], I.file, I.line, I.fn.name, msg, path)


BLOCK = {"sleep", "usleep", "nanosleep", "poll", "select", "recv", "recvfrom", "recvmsg", "accept", "connect", "sigwait", "pause"}
COND = {"pthread_cond_wait", "pthread_cond_timedwait"}
PASS = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem", "icmp", "zext", "sext", "trunc", "gep", "load", "select", "bitcast",
        "phi", "freeze", "ptrtoint", "inttoptr"}
STEP = PASS - {"phi", "select", "icmp"} | {"call"}


def cycles(blocks, cut):
    """strongly connected parts (with a cycle) of the control flow graph without the blocks of cut"""
    bl = [b for b in blocks if b not in cut]
    num, low, on, st, out, k = {}, {}, set(), [], [], 0
    ok = set(bl)
    for r in bl:
        if r in num:
            continue
        work = [(r, iter([s for s in r.succ if s in ok]))]
        num[r] = low[r] = k
        k += 1
        st.append(r)
        on.add(r)
        while work:
            b, it = work[-1]
            for s in it:
                if s not in num:
                    num[s] = low[s] = k
                    k += 1
                    st.append(s)
                    on.add(s)
                    work.append((s, iter([x for x in s.succ if x in ok])))
                    break
                if s in on:
                    low[b] = min(low[b], num[s])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[b])
                if low[b] == num[b]:
                    c = set()
                    while True:
                        x = st.pop()
                        on.discard(x)
                        c.add(x)
                        if x is b:
                            break
                    if len(c) > 1 or b in b.succ:
                        out.append(c)
    return out


def operands(I):
    o = [x for x, _ in I.ops] if I.op == "phi" else [o for o in I.ops or ()]
    return [x.v for x in o if getattr(x, "kind", None) == "i"]


def depends(I, scc):
    """phis of the part that a value depends on"""
    seen, todo, res = set(), [I], set()
    while todo:
        x = todo.pop()
        if id(x) in seen or x.op not in PASS and x.op != "call":
            continue
        seen.add(id(x))
        if x.op == "phi" and x.blk in scc:
            res.add(x)
        todo += operands(x)
    return res


def loads(I):
    """loads that a value is worked out from"""
    seen, todo, res = set(), [I], []
    while todo:
        x = todo.pop()
        if id(x) in seen or x.op not in PASS:
            continue
        seen.add(id(x))
        if x.op == "load":
            res.append(x)
        todo += operands(x)
    return res


def place(a):
    """where a load or store goes, as far as the text tells"""
    if a.kind in ("g", "c"):
        return (a.kind, a.v)
    if a.kind == "ge":
        return ("ge", getattr(a.v[0], "v", None), a.v[1])
    if a.kind == "i":
        g = a.v
        if g.op == "gep":
            return ("gep", tuple(place(o) for o in g.ops), repr(g.x))
        if g.op == "load":
            return ("load", place(g.ops[0]))
        if g.op == "call" and str(g.x).startswith("llvm.threadlocal"):
            return place(g.ops[0])
        return ("i", g.id)
    return (a.kind, repr(a.v))


def counted(scc):
    """blocks of phis that count or walk (their next value is worked out from the last one) and decide an exit"""
    r = set()
    for b in scc:
        t = b.ins[-1]
        if t.op not in ("br", "switch") or all(s in scc for s in b.succ):
            continue
        for c in operands(t):
            # a counter in memory
            for l in loads(c):
                a = place(l.ops[0])
                for x in scc:
                    for I in x.ins:
                        if I.op == "store" and place(I.ops[1]) == a and getattr(I.ops[0], "kind", None) == "i" and I.ops[0].v.op in PASS - {"phi", "select", "icmp", "load"} and any(
                                place(y.ops[0]) == a for y in loads(I.ops[0].v)):
                            r.add(l.blk)
            for p in depends(c, scc):
                for v, frm in p.ops:
                    if frm in scc and getattr(v, "kind", None) == "i" and v.v is not p and p in depends(v.v, scc) and v.v.op in STEP:
                        r.add(p.blk)
                    # through other phis of the loop
                    elif frm in scc and getattr(v, "kind", None) == "i" and v.v.op in ("phi", "select") and v.v is not p and any(
                            getattr(w, "kind", None) == "i" and w.v.op in STEP and p in depends(w.v, scc)
                            for w in ([x for x, _ in v.v.ops] if v.v.op == "phi" else v.v.ops)):
                        r.add(p.blk)
    return r


class Seen(flow.Spec):
    """after a thread has read the flag set it does not wait for anything more"""

    def init(self, E, st):
        return False

    def state_key(self, E, st, b):
        return (st.prop, frozenset((i, v) for i, v in st.env.items() if v[0] == "c" and -2 <= v[1] < 64))

    def on_load(self, E, st, I, addr, cls):
        if addr[0] == "s" and (addr[1], addr[2]) in self.qloc:
            k, out = (addr[1], addr[2]), [st]
            if not st.prop:
                out.append(st.copy())
                out[1].prop = True
            for s in out:
                s.mem[k] = (("c", int(s.prop)), I.x, cls)
            return out
        return None

    def on_call(self, E, st, I, name, args):
        if name in self.blocks:
            if st.prop:
                self.bad.setdefault((I.fn.name, "again:" + name, where(I)), (I, E.path(st, I), "%s (which may wait) is called by the thread %s after it read that it has to end" % (name, self.root)))
            else:
                self.good[("nothing is waited for once the flag was read", where(I))] = I
        return None


def loops(chk, m, mods, bad, good, qloc, sig):
    inl = callers_closure(m, {"get_quit_flag"}) | {"get_quit_flag"}
    allw = callers_closure(m, BLOCK | COND) | BLOCK | COND
    n = 0

    def look(b):
        return any(I.op == "load" and I.ops[0].kind == "g" and (("g", I.ops[0].v), 0) in qloc for I in b.ins)

    def scan(F, w, t):
        nonlocal n
        todo = [(F.blocks, {b for b in F.blocks if look(b)})]
        while todo:
            bl, cut = todo.pop()
            for c in cycles(bl, cut):
                x = [I for b in c for I in b.ins if I.op == "call" and I.x in w]
                if not x:
                    continue
                n += 1
                h = counted(c)
                if h:
                    good[("the loop is counted", where(x[0]))] = x[0]
                    todo.append((c, h))
                else:
                    bad.setdefault((x[0].fn.name, "blind", where(x[0])), (x[0], [], "the thread %s repeats %s in a loop that does not look at the flag to end: it cannot be stopped there" % (t, x[0].x)))
    done = set()
    for t in sorted(thread_roots(m)):
        F = flat(chk, m, t, lambda x: x not in inl)
        s = Seen()
        s.qloc, s.blocks, s.bad, s.good, s.root = qloc, allw, bad, good, t
        E = flow.Engine(F, s, mods=mods, K=12, KL=4, max_steps=300000)
        E.run()
        if E.truncated:
            raise AnalysisBroken(t)
        if not any(look(b) for b in F.blocks):
            bad.setdefault((t, "never", t), (F.blocks[0].ins[0], [], "the thread %s never looks at the flag to end" % t))
        scan(F, allw, t)
        for g in sorted(callees_closure(m, [t], refs=True) - inl - done):
            done.add(g)
            if g in allw and not is_log(g):
                scan(m.func(g), allw - COND, t)
    chk.counts["loops that wait"] = n
    chk.atleast("loops that wait", 3)
