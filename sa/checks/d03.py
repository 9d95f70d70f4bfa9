"""D03 ordered end: every thread has ended before what it uses is closed"""
import bisect, re
import flow
from util import *

EXPLANATION = ("main() and what it registered with atexit() are interpreted as one history with every failing call; the automaton keeps which threads were created, cancelled "
               "and joined, and which data of the program were released. What a thread, or a function called at the end, uses is collected over its call graph.")
TH = {"pthread_create", "pthread_join", "pthread_cancel", "pthread_detach"}
QUIT = {"set_quit_flag", "get_quit_flag"}
PRIM = {"free", "Tcl_Free", "close", "fclose", "pclose", "munmap", "pthread_mutex_destroy", "pthread_cond_destroy"}
REG = (("al", "ghost registered"), 0)
TABLE, ELEMS = ("g", "slave table"), ("g", "slaves")
NAMES = ("made", "ended", "asked", "gone", "quit")


class P(tuple):
    def __getattr__(self, n):
        return self[NAMES.index(n)]

    def set(self, **kw):
        return P(kw.get(n, v) for n, v in zip(NAMES, self))


def locs(I):
    """places in global variables that an instruction mentions"""
    r = set()
    ops = list(I.ops or ())
    for o in ops:
        k = getattr(o, "kind", None)
        if k == "ge" and o.v[0].kind == "g":
            r.add((o.v[0].v, o.v[1]))
        elif k == "g":
            r.add((o.v, I.x[0] if I.op == "gep" else 0))
    return {(n, x if n == "g" else 0) for n, x in r}


class Use:
    """what functions use and release, over the call graph"""

    def __init__(self, m):
        self.m = m
        di = m.di()
        self.ptr = set()
        self.lay = sorted(di.structs["nbsp_globals"])
        for o, x in di.structs["nbsp_globals"].items():
            t, n = x[2], di.nodes.get(x[2], "")
            for _ in range(6):
                if "DW_TAG_typedef" in n or "DW_TAG_const" in n:
                    n = di.nodes.get(re.search(r"baseType: (!\d+)", n).group(1), "")
            if "DW_TAG_pointer_type" in n:
                self.ptr.add(("g", o))
        self.prim = callers_closure(m, PRIM) | PRIM
        self.c = {}
        # tables that strings of g are taken from: f(&g.x, table, ...)
        bor = {}
        for f in m.funcs():
            for I in f.calls():
                a = [o for o in I.ops if getattr(o, "kind", None) in ("g", "ge")]
                p = [("g", o.v[1]) for o in a if o.kind == "ge" and o.v[0].kind == "g" and o.v[0].v == "g"]
                t = [o.v for o in a if o.kind == "g" and o.v != "g" and not self.text(o)]
                if len(p) == 1 and len(t) == 1 and p[0] in self.ptr:
                    bor.setdefault(t[0], set()).add(p[0])
        self.bor = {t: s for t, s in bor.items() if len(s) > 3}

    def field(self, o):
        i = bisect.bisect_right(self.lay, o) - 1
        return ("g", self.lay[i] if i >= 0 else o)

    def text(self, o):
        try:
            return self.m.cstring(o.v) is not None
        except Exception:
            return False

    def of(self, name, refs=False):
        """(mentioned, released, tables released) of a function and what it calls"""
        k = (name, refs)
        if k not in self.c:
            use, rel, tab = set(), set(), set()
            for g in callees_closure(self.m, [name], refs):
                f = self.m.func(g)
                for I in f.instrs():
                    l = locs(I)
                    if I.op == "store":
                        a = I.ops[1]
                        d = locs(I)
                        if I.x == 8 and I.ops[0].kind == "c" and I.ops[0].v == 0:
                            # reset
                            rel |= {x for x in d if x[0] != "g" or x in self.ptr}
                            continue
                    use |= l
                    if I.op == "call" and I.x in self.prim:
                        for o in I.ops:
                            if getattr(o, "kind", None) == "i" and o.v.op == "load":
                                rel |= {x for x in locs(o.v) if x[0] != "g" or x in self.ptr}
                            if getattr(o, "kind", None) == "g" and o.v in self.bor:
                                tab.add(o.v)
            if name in PRIM or name.startswith("llvm."):
                use, rel, tab = set(), set(), set()
            self.c[k] = (use, rel, tab)
        return self.c[k]


class S(flow.Spec):
    def __init__(self, m, u, kind, bad, good, init=None):
        self.m, self.u, self.kind, self.bad, self.good, self.init_state = m, u, kind, bad, good, init
        self.exits = []
        self.slavet = off(m, "nbsp_globals", "slavet")
        self.pid = ("g", off(m, "nbsp_globals", "pidfile"))
        self.lay = {off(m, "slave_table_st", "slave"): ("s", ELEMS, 0), off(m, "slave_table_st", "numslaves"): ("c", 2)}
        self.typ = off(m, "slave_element_st", "slavetype")
        di = m.di()
        self.esize = di.sizeof("slave_element_st") if hasattr(di, "sizeof") else None

    def init(self, E, st):
        if self.init_state is not None:
            p, mem = self.init_state
            for k, v in mem:
                st.mem[k] = v
            return p
        return P((frozenset(),) * 4 + (False,))

    def prop_syms(self, p):
        return [("T",) + t for t in p.made] + [TABLE, ELEMS]

    def prop_rename(self, p, m):
        return p

    def state_key(self, E, st, b):
        return (st.prop, frozenset((i, v) for i, v in st.env.items() if v[0] == "c" and 0 <= v[1] < 64), frozenset(
            (k, v[0]) for k, v in st.mem.items() if v[0][0] == "s" and v[0][1][0] == "T" and v[0][1][1] == self.root))

    def fail(self, k, E, st, I, msg):
        self.bad.setdefault((I.fn.name, k, where(I)), (I, E.path(st, I), msg))

    def at_block(self, E, st, b):
        # only the flags and ids of the threads matter
        for k in [k for k in st.mem if k[0] == ("g", "g") and self.u.field(k[1]) not in self.watch and k[1] != self.slavet]:
            del st.mem[k]

    # ---- memory
    def on_load(self, E, st, I, addr, cls):
        if addr[0] == "s" and (addr[1], addr[2]) in self.qloc:
            # once set it stays; another thread may set it at any time
            out = [st]
            if not st.prop.quit:
                out.append(st.copy())
                out[1].prop = st.prop.set(quit=True)
            for s in out:
                s.mem[(addr[1], addr[2])] = (("c", int(s.prop.quit)), I.x, cls)
            return out
        if addr[0] == "s" and addr[1] == ("g", "g"):
            self.used(E, st, I, {("g", addr[2])})
        return None

    def load_value(self, E, st, I, addr, size, cls):
        if addr[0] != "s":
            return None
        if addr[1] == ("g", "g") and addr[2] == self.slavet and E.peek(st, addr) != ("c", 0):
            return ("s", TABLE, 0)
        if addr[1] == TABLE and addr[2] in self.lay:
            return self.lay[addr[2]]
        if self.phase == "end" and size == 8 and E.peek(st, addr) is None and (addr[1] == ELEMS or addr[1] == ("g", "g") and self.u.field(addr[2]) in self.watch):
            return ("s", ("ID", (addr[1], addr[2])), 0)
        if addr[1] == ELEMS and E.peek(st, addr) is None:
            if cls == ("slave_element_st", self.typ):
                return ("c", self.kind)
            if size == 4:
                return ("c", 0)
        if addr[1] == ("g", "g") and size == 8 and ("g", addr[2]) in self.u.ptr and E.peek(st, addr) is None:
            return ("s", ("G", addr[2]), 0)
        return None

    def on_store(self, E, st, I, addr, val, cls):
        if self.phase == "main" and val[0] == "s" and val[1][0] == "T" and addr[0] == "s" and addr[1][0] == "g":
            self.places[(addr[1], addr[2])] = val[1][1]
        if addr[0] == "s" and (addr[1], addr[2]) in self.qloc:
            st.prop = st.prop.set(quit=E.const(st, val) not in (0, None))
        if addr[0] == "s" and addr[1] == ("g", "g") and self.phase == "end" and I.x == 8 and E.const(st, val) == 0 and ("g", addr[2]) in self.u.ptr:
            self.release(E, st, I, {("g", addr[2])}, "it is reset")

    # ---- rules
    def alive(self, p):
        return sorted(t for t in p.made - p.ended if t[0] in self.obliged)

    def release(self, E, st, I, what, how):
        p = st.prop
        for t in self.alive(p):
            x = what & self.uses[t[0]]
            if x:
                self.fail("early:" + t[0], E, st, I, "%s: what the thread %s uses (%s) is released before the thread has ended" % (how, t[0], self.name(x)))
                return
        self.good[("released after the threads that use it have ended", where(I))] = I

    def name(self, x):
        di = self.m.di().structs["nbsp_globals"]
        return ", ".join(sorted("g." + str(di[o][0]) if n == "g" and o in di else n for n, o in x)[:3])

    def used(self, E, st, I, what):
        x = {l for t in st.prop.gone for l in self.u.bor[t]} & what
        if x:
            self.fail("late", E, st, I, "a string that was read from the configuration file (%s) is used after all of them were released" % self.name(x))

    def idle(self, E, st, I, what, k):
        for t in self.alive(st.prop):
            self.fail(k, E, st, I, "%s although the thread %s may not have ended" % (what, t[0]))
            return
        self.good[(what + " after all threads have ended", where(I))] = I

    def on_call(self, E, st, I, name, args):
        r = self.call(E, st, I, name, args)
        if r is not None or name is None or name.startswith("llvm."):
            return r
        # everything that stores the flags and ids of threads is part of the history
        old = {k: v for k, v in st.mem.items() if k[0] == ELEMS or k[0] == ("g", "g") and self.u.field(k[1]) in self.watch}
        v = E.default_call(st, I, name, args)
        st.mem.update(old)
        return [(st, v if I.w else None)]

    def call(self, E, st, I, name, args):
        p = st.prop
        if name == "pthread_create":
            root = I.ops[2].v if I.ops[2].kind == "f" else None
            if root is None:
                raise AnalysisBroken("the function of a thread is not known at %s" % where(I))
            a, b = st.copy(), st.copy()
            if root != self.root:
                E.store(a, args[0], ("s", ("T", root, 0), 0), 8, None)
                return [(a, ("c", 0)), (b, ("c", 11))]
            t = (root, sum(x[0] == root for x in p.made))
            if t[1] >= 2:
                return []       # at most two of a kind at a time, whichever they are
            a.prop = p.set(made=p.made | {t})
            E.store(a, args[0], ("s", ("T",) + t, 0), 8, None)
            return [(a, ("c", 0)), (b, ("c", 11))]
        if name in ("pthread_join", "pthread_cancel", "pthread_detach"):
            t = args[0][1][1:] if args[0][0] == "s" and args[0][1][0] == "T" and args[0][2] == 0 else None
            E.default_call(st, I, name, args)
            if t is None and args[0][0] == "s" and args[0][1][0] == "ID" and self.places.get(args[0][1][1]) == self.root:
                t = (self.root, None)
            if t is None or t[0] != self.root:
                return [(st, E.fresh(st, I))]
            if t not in p.made:
                self.fail("unmade", E, st, I, "%s of a thread that was not created" % name)
                return [(st, ("c", 3))]
            if name == "pthread_cancel":
                st.prop = p.set(asked=p.asked | {t})
                return [(st, E.fresh(st, I))]
            if t in p.ended:
                self.fail("twice", E, st, I, "the thread %s is joined twice" % t[0])
            if name == "pthread_join":
                if t not in p.asked and not p.quit:
                    self.fail("hang:" + t[0], E, st, I, "the end of the thread %s is awaited, but it was not asked to end" % t[0])
                else:
                    self.good[("a thread that is joined was asked to end", where(I))] = I
                st.prop = p.set(ended=p.ended | {t})
            return [(st, ("c", 0))]
        if name is None:
            return None
        if self.phase == "main":
            if name == "atexit":
                st.mem[REG] = (("c", 1), 4, None)
            if name in self.mayexit:
                self.exit(E, st, I)
            return None
        if is_log(name):
            return None
        use, rel, tab = self.u.of(name) if self.m.has(name) else (set(), set(), set())
        self.used(E, st, I, use)
        if name in self.u.prim:
            rel = rel | {("g", a[1][1]) for a in args if a[0] == "s" and a[1][0] == "G"}
            tab = tab | {o.v for o in I.ops if getattr(o, "kind", None) == "g" and o.v in self.u.bor}
        for t in tab:
            rel = rel | self.u.bor[t]
        if rel & self.shared:
            self.release(E, st, I, rel, "%s is called" % name)
        if self.pid in use and name in self.removes:
            self.idle(E, st, I, "the pid file is removed", "lock")
        if name in self.scripts:
            self.idle(E, st, I, "the stop script is executed", "script")
        if tab:
            st.prop = p.set(gone=p.gone | tab)
        return None

    def exit(self, E, st, I):
        p = st.prop
        if self.phase == "main":
            if REG not in st.mem:
                return
            self.at_block(E, st, None)
            mem = tuple(sorted(((k, v) for k, v in st.mem.items() if (k[0] in (TABLE, ELEMS) or k[0] == ("g", "g")) and (v[0][0] == "c" or v[0][0] == "s" and v[0][1][0] in ("T", "g"))), key=repr))
            self.exits.append((p, mem))
        else:
            for t in self.alive(p):
                self.fail("left:" + t[0], E, st, I, "the program ends without having waited for the thread %s" % t[0])
                return
            self.good[("every thread was joined at the end", where(I))] = I

    def on_ret(self, E, st, I, val):
        self.exit(E, st, I)

    def on_exit(self, E, st, I, name):
        if name not in ("_exit", "abort", "__assert_fail", "_Exit"):
            self.exit(E, st, I)



def check(chk):
    m, mods = chk.nbspd, chk.ctx.mods()
    chk.rule = ("a thread is asked to end and joined before what it uses is released, the pid file removed, the stop script executed or the program ended; "
                "no other thread ends the program; no released option is used")
    u = Use(m)
    roots = thread_roots(m)
    chk.counts["threads"] = len(roots)
    chk.atleast("threads", 5)
    # threads do not end the program
    for t in sorted(roots):
        for g in sorted(callees_closure(m, [t], refs=True)):
            f = m.func(g)
            for I in f.calls():
                if I.x in ("exit", "errx", "err", "verr", "verrx"):
                    chk.violation("%s:exit" % g, I.file, I.line, g, "the thread %s ends the program: the cleanup would wait for threads that were not asked to end, and for itself" % t)
        chk.ok("does not end the program", t)
    ends = [o.v for f in m.funcs() for I in f.calls("atexit") for o in I.ops if o.kind == "f"]
    chk.counts["functions run at exit"] = len(ends)
    chk.atleast("functions run at exit", 1)
    up = callers_closure(m, TH)
    # the flags and ids of threads
    reach = callees_closure(m, ["main"] + ends)
    watch = set()
    for n in up & reach:
        if n != "main" and n not in ends:
            for I in m.func(n).instrs():
                if I.op in ("load", "store", "gep"):
                    watch |= {l for l in locs(I) if l[0] == "g" and l not in u.ptr}
    sets = set()
    for n in reach:
        for I in m.func(n).instrs():
            if I.op in ("store", "gep", "call") and locs(I) & watch and (I.op != "store" or any(getattr(I.ops[1], "kind", None) in ("g", "ge") for _ in (0,))):
                sets.add(n)
    sets = {n for n in sets if not any(I.x == "setoptval" for I in m.func(n).calls())} if True else sets
    tcl = callers_closure(m, {I.x for f in m.funcs() for I in f.calls() if I.x and I.x.startswith("Tcl_")})
    inl = {n for n in (up | QUIT | sets) if m.has(n)} - (tcl - up - set(ends))
    inl |= {n for n in callers_closure(m, inl & (sets | QUIT)) if n in up}
    keep = lambda n: n not in inl
    qloc = set()
    for n in QUIT:
        if m.has(n):
            for I in m.func(n).instrs():
                if I.op in ("load", "store"):
                    qloc |= {(("g", o.v), 0) for o in I.ops if o.kind == "g"}
    if len(qloc) != 1:
        raise AnalysisBroken("the quit flag is not known")
    uses = {t: u.of(t, True)[0] for t in roots}
    endrel = set()
    for e in ends:
        endrel |= u.of(e)[1]
        for t in u.of(e)[2]:
            endrel |= u.bor[t]
    obliged = {t for t in roots if uses[t] & endrel}
    chk.counts["data released at the end and used by threads"] = len({x for t in roots for x in uses[t]} & endrel)
    chk.atleast("data released at the end and used by threads", 3)
    chk.counts["options taken from the configuration file"] = sum(len(s) for s in u.bor.values())
    F = flat(chk, m, "main", keep)
    G = [flat(chk, m, e, keep) for e in ends]
    bad, good, made = {}, {}, set()
    n = 0
    noex = callers_closure(m, {"exit", "errx", "err"})
    places = {}
    removes = callers_closure(m, {"unlink", "remove"})
    scripts = callers_closure(m, {"Tcl_EvalFile", "Tcl_FSEvalFile", "Tcl_FSEvalFileEx"})
    for root in sorted(obliged & {I.ops[2].v for b in F.blocks for I in b.ins if I.op == "call" and I.x == "pthread_create"}):
        for kind in (1, 2, 3):
            def prep(s, phase):
                s.phase, s.qloc, s.uses, s.obliged, s.watch, s.root, s.places = phase, qloc, uses, obliged, watch, root, places
                s.shared = {x for t in roots for x in uses[t]}
                s.mayexit = {x for x in noex if keep(x)}
                s.removes, s.scripts = removes, scripts
                return s
            s = prep(S(m, u, kind, bad, good), "main")
            E = flow.Engine(F, s, mods=mods, K=2, KL=1, max_steps=600000)
            E.run()
            if E.truncated:
                raise AnalysisBroken("main")
            todo = sorted(set(s.exits), key=repr)
            made.update(x for p, _ in todo for x in p.made)
            for g in G:
                for init in todo:
                    n += 1
                    x = flow.Engine(g, prep(S(m, u, kind, bad, good, init), "end"), mods=mods, K=2, KL=1, max_steps=300000)
                    x.run()
                    if x.truncated:
                        raise AnalysisBroken(g.name)
    chk.counts["kinds of threads created by main"] = len({x[0] for x in made})
    chk.atleast("kinds of threads created by main", 4)
    chk.counts["ways the start can end"] = n
    chk.atleast("ways the start can end", 4)
    for k, I in good.items():
        chk.ok(*k)
    for k, (I, path, msg) in bad.items():
        chk.violation("%s:%s" % k[:2], I.file, I.line, I.fn.name, msg, path)
