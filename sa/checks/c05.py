"""C05 what threads share is used by one thread only, or under its lock"""
import flow, ir, locks, ops
from util import *
EXPLANATION = ("Lockset analysis: the locks held at every access (path-sensitive within a function, propagated through the call graph from every thread) of the fields of the structures that "
               "own a mutex and of the global variables.")
pc = lambda v: flow.Engine.pclass(None, v)
# reads without the lock that are made by design: the server looks for connections that need attention, numbers that are only reported
PEEK = {"conn_element_get_connection_status_un", "nbspqt_n", "test_qdb_status_flag"}
REPORT = ("qstate.c", "stats.c")
# requests from the main or the signal thread
REQUEST = {"greload_filters", "greload_server_filters", "f_hup"}


def target(o):
    """the global variable an address belongs to"""
    if o.kind == "g":
        return o.v
    if o.kind == "ge":
        return target(o.v[0])
    if o.kind == "i" and o.v.op in ("gep", "bitcast"):
        return target(o.v.ops[0])
    return None


def indexed(o):
    """an element chosen at run time (of an array with one element per thread)"""
    while o.kind == "i" and o.v.op in ("gep", "bitcast"):
        if any(x.kind not in ("c",) for x in o.v.ops[1:]):
            return True
        o = o.v.ops[0]
    return False


def behind(o):
    """the field that holds the pointer through which is accessed"""
    while o.kind == "i" and o.v.op in ("gep", "bitcast"):
        o = o.v.ops[0]
    return pc(o.v.ops[0]) if o.kind == "i" and o.v.op == "load" else None


def handle(o):
    """the field that holds the handle, or the array of handles"""
    if o.kind != "i" or o.v.op != "load":
        return None
    return pc(o.v.ops[0]) or behind(o.v.ops[0])


class Spec(locks.LockSpec):
    """at: instruction -> locks held; a flag that was read since the lock was taken is remembered beside the lock"""

    def on_load(self, E, st, I, addr, cls):
        self.seen(st, I)
        if st.prop and addr[0] == "s" and addr[1][0] == "g":
            st.prop = st.prop | {(("flag", addr[1][1]), "")}

    def on_store(self, E, st, I, addr, val, cls):
        self.seen(st, I)
        if addr[0] == "s" and addr[1][0] == "g" and any(h[0][0] != "flag" for h in st.prop) and E.truth(st, val) is False:
            self.clears.setdefault(id(I), (I, addr[1][1], []))[2].append((("flag", addr[1][1]), "") in st.prop)

    def seen(self, st, I):
        self.at.setdefault(id(I), []).append(frozenset(h[1] for h in st.prop if h[1]))

    def on_call(self, E, st, I, name, args):
        self.seen(st, I)
        if name == "pthread_mutex_lock":
            # of a valid mutex: it is got
            st.prop = st.prop | {(args[0], "%s:%d" % (I.file, I.line))}
            return [(st, ("c", 0))]
        r = super().on_call(E, st, I, name, args)
        if name in locks.UNLOCK or name in locks.WAIT:
            for s, _ in r:
                s.prop = frozenset(h for h in s.prop if h[1])
        return r


def collect(chk, m, build):
    """per function: its instructions (static functions and lock helpers inlined into those that lock) and what they hold"""
    la = locks.LockAnalysis(chk)
    F, clears = {}, []
    locking = set(la.results) - la.wrappers
    for f in m.funcs():
        if f.name in la.wrappers:
            continue
        if f.name in locking:
            g = ir.Inliner(m, lambda n: n not in la.wrappers and (n in locking or n in build or is_log(n) or not m.has(n) or not m.func(n).internal)).run(f.name)
            s = Spec(chk, la.errcheck)
            s.at, s.clears = {}, {}
            chk.run_flow(g, s, mods=chk.ctx.mods("src/nbspd"))
            lc = {where(I): pc(I.ops[0]) for I in g.calls(*locks.LOCK)}
            F[f.name] = (g, {i: frozenset(lc.get(x) for x in frozenset.intersection(*h)) for i, h in s.at.items()})
            clears += [(f.name,) + c for c in s.clears.values()]
        else:
            F[f.name] = (f, {})
    return F, clears


def accesses(m, F, build, owners):
    """{what: [(thread, r/w/p, locks held, functions on the way, instruction)]}; nothing is recorded of a structure while it is built or destroyed"""
    none = frozenset()
    acc = {}
    for r in list(thread_roots(m)) + ["main"]:
        seen, todo = set(), [(r, none, none, none)]
        while todo:
            n, held, ex, via = todo.pop()
            if n not in F:
                continue
            v2 = via | ({n} if n in PEEK or F[n][0].file.endswith(REPORT) else none)
            if (n, held, ex, v2) in seen:
                continue
            seen.add((n, held, ex, v2))
            ex2 = ex | frozenset(build.get(n, ()))
            f, at = F[n]
            def rec(k, kind, h, I):
                acc.setdefault(k, []).append((r, kind, h, v2, I, n))
            for I in f.instrs():
                h = held | at.get(id(I), none)
                if at and I.op in ("load", "store", "call") and id(I) not in at:
                    continue        # no path leads there
                if I.op in ("load", "store"):
                    o = I.ops[0 if I.op == "load" else 1]
                    c, g = pc(o), target(o)
                    k = "r" if I.op == "load" else "w"
                    if g:
                        rec(("variable", g + ("." + str(m.field(*c)) if c and c[0] not in ("g", "al") else "") + "[i]" * indexed(o)), k, h, I)
                    elif c and c[0] in owners and c[0] not in ex2:
                        rec((c[0], m.field(*c)), k, h, I)
                    elif (c := behind(o)) and c[0] in owners and c[0] not in ex2:
                        rec((c[0], m.field(*c) + "[]"), k, h, I)
                elif I.op == "call":
                    if I.x:
                        todo.append((I.x, h, ex2, v2))
                    else:
                        d = ops.db_op(m, I)
                        if d and d not in ("close", "set_flags", "set_re_len", "open", "remove", "err", "get_re_len"):
                            rec(("database", "%s in %s" % (d, f.name if not I.fn else I.fn.name)), "w", h, I)
                            c = handle(I.ops[0])
                            if c and c[0] in owners and c[0] not in ex2:
                                rec((c[0], m.field(*c) + "->"), "w", h, I)
                    for o in I.ops:
                        c = pc(o)
                        if c and c[0] in owners and c[0] not in ex2 and c != owners[c[0]] and not is_log(I.x or "") and not (I.x or "").startswith("pthread_"):
                            rec((c[0], m.field(*c)), "p", h, I)
                        g = target(o)
                        if g and not g.startswith((".str", "__PRETTY", "stderr", "stdout")) and not (I.x or "").startswith("pthread_"):
                            rec(("variable", g + "[i]" * indexed(o)), "p", h, I)
                for o in (I.ops if I.op != "phi" else [x for x, _ in I.ops]) or ():
                    if getattr(o, "kind", None) == "f" and not (I.op == "call" and (o.v == I.x or I.x == "pthread_create")):
                        todo.append((o.v, none, none, v2))
    return acc


def check(chk):
    m = chk.nbspd
    chk.rule = "every structure with a mutex and every global variable that threads change is used by one thread only, or always with one lock held"
    owners, build = {}, {}
    for f in m.funcs():
        for I in f.calls("pthread_mutex_init", "pthread_mutex_destroy"):
            c = pc(I.ops[0])
            if c and c[0] not in ("g", "al"):
                owners[c[0]] = c
                build.setdefault(f.name, set()).add(c[0])
    F, clears = collect(chk, m, build)
    acc = accesses(m, F, build, owners)
    chk.functions.update(F)
    multi = several(m)
    pop = {}
    for k, l in acc.items():
        if k[0] in owners:
            pop.setdefault(k[0], set()).update(a[0] for a in l)

    def held(k, what, l, need, shared):
        """every access with the lock"""
        bad = [a for a in l if need not in a[2]]
        if not bad:
            chk.ok("%s: only with the lock held (%s)" % (what, shared), where(l[0][4]))
        done = set()
        for t, kind, h, via, I, n in bad:
            kk = "%s:%s" % (n, k[1].split(".")[-1].split(" ")[0])
            if kk in done:
                continue
            done.add(kk)
            chk.violation(kk, I.file, I.line, n, "%s is %s without the lock that protects it (thread %s; %s)" % (
                what, "read" if kind == "r" else "changed", t, shared))

    for k, l in sorted(acc.items()):
        ths = {a[0] for a in l} - {"main"}
        run = [a for a in l if a[0] != "main"]
        if not any(a[1] in "wp" for a in run):
            if run and k[0] in owners:
                chk.ok("%s of %s: not changed by running threads" % (k[1], k[0]), where(run[0][4]))
            continue
        what = {"variable": "variable %s", "database": "database operation %s"}.get(k[0], "%s.%%s" % k[0]) % k[1]
        chk.count("shared or changed by threads")
        # reports, and looks without the lock made by design
        strict = [a for a in l if not (a[1] == "r" and a[3])]
        if k[0] in owners:
            if len(pop[k[0]] - {"main"}) + len(pop[k[0]] & multi) > 1:
                chk.count("fields under the lock of their structure")
                held(k, what, strict, owners[k[0]], "the structure is shared by %d kinds of threads" % len(pop[k[0]]))
            else:
                chk.ok("%s: one thread only (%s)" % (what, ", ".join(ths)), where(run[0][4]))
            continue
        if k[0] == "variable" and all(a[3] or a[0] == "main" for a in l):
            chk.ok("%s: only for reports" % what, where(run[0][4]))
            continue
        if k[0] == "variable" and all(a[1] == "r" or a[1] == "w" and const(a[4]) for a in l) and len({const(a[4]) for a in l if a[1] == "w"}) == 1:
            chk.ok("%s: only ever set to one value" % what, where(run[0][4]))
            continue
        some = {x for a in strict for x in a[2] if a[1] != "r" and (k[0] == "database" or x and x[0] == "g")}
        if len(ths) + len(ths & multi) * (not k[1].endswith("[i]")) > 1 or k[1] in REQUEST or k[0] == "variable" and some:
            # a look that is repeated with the lock held
            again = {a[5] for a in l if a[1] == "r" and a[2]}
            late = [a for a in strict if not (a[1] == "r" and a[5] in again)]
            if k[0] != "variable" or k[1] not in REQUEST and not some:
                late = [a for a in late if a[0] != "main"]
            best = max(some, key=lambda x: (sum(1 for a in late if x in a[2]), str(x))) if some else None
            chk.count("variables and databases under a lock")
            held(k, what, late, best, "shared by %s" % ", ".join(sorted(ths | ({"main"} & {a[0] for a in l}))))
        else:
            chk.ok("%s: one thread only (%s)" % (what, ", ".join(ths)), where(run[0][4]))
    for n, I, g, seen in clears:
        if all(seen):
            chk.ok("request %s is taken in the critical section in which it is cleared" % g, where(I))
        else:
            chk.violation("%s:clear:%s" % (n, g), I.file, I.line, n, "%s is cleared without having been read since the lock was taken: a request made meanwhile is lost" % g)
    # what new threads are given
    for f in m.funcs():
        ts = [I.ops[2].v for I in f.calls("pthread_create") if I.ops[2].kind == "f"]
        if not ts:
            continue
        chk.count("thread creations", len(ts))
        private = {t for t in ts if f.name in m.address_taken()}
        up = [f.name]
        if f.internal and f.name not in m.address_taken():
            up = [g.name for g in m.funcs() if any(True for I in g.calls(f.name))] or up
            private |= {t for t in ts if any(u in m.address_taken() for u in up)}
        chk.count("threads of clients", len(private) * len(up))
        for u in up:
            s = Args(m, private)
            chk.run_flow(ir.Inliner(m, lambda n: is_log(n) or not m.has(n) or not m.func(n).internal).run(u), s, mods=chk.ctx.mods("src/nbspd"))
            for (k, w), (I, path, msg) in s.bad.items():
                chk.violation("%s:%s" % (I.fn.name, k), I.file, I.line, I.fn.name, msg, path)
            for (k, w), I in s.good.items():
                chk.ok(k, w)
    chk.atleast("thread creations", 5)
    chk.atleast("threads of clients", 1)
    chk.atleast("fields under the lock of their structure", 8)
    chk.atleast("variables and databases under a lock", 5)


class Args(flow.Spec):
    """what a new thread is given: a block that nobody else holds, and that is left alone from then on"""

    def __init__(self, m, private):
        self.m, self.private, self.bad, self.good = m, private, {}, {}

    def init(self, E, st):
        return frozenset()

    def prop_key(self, p):
        return p

    def prop_syms(self, p):
        return tuple(p)

    def prop_rename(self, p, d):
        return frozenset(d.get(x, x) for x in p)

    def fail(self, k, E, st, I, msg):
        self.bad.setdefault((k, where(I)), (I, E.path(st, I), msg))

    def gone(self, E, st, I, v, what):
        if v[0] == "s" and E.root(v[1]) in st.prop:
            self.fail("after", E, st, I, "%s what was handed over to the new thread" % what)

    def on_load(self, E, st, I, addr, cls):
        self.gone(E, st, I, addr, "reads")

    def on_store(self, E, st, I, addr, val, cls):
        self.gone(E, st, I, addr, "changes")

    def on_call(self, E, st, I, name, args):
        if name == "pthread_create":
            v = args[3]
            if v[0] == "s" and v[1][0] == "al":
                self.fail("local", E, st, I, "a new thread is given a local variable of the function that creates it")
            target = I.ops[2].v if I.ops[2].kind == "f" else None
            if target in self.private:
                if v[0] != "s" or v[2] != 0 or not (v[1][0] == "i" and v[1][1] in E.heap):
                    self.fail("private", E, st, I, "the thread of a client is not given a copy of its own of the element of the table, which moves when the table changes")
                else:
                    self.good[("the thread of a client is given a copy of its own", where(I))] = I
                    a, b = st.copy(), st
                    a.prop = a.prop | {v[1]}
                    r = E.fresh(b, I)
                    b.ne = b.ne | {(r[1], 0)}
                    return [(a, ("c", 0)), (b, r)]
            return None
        if name == "free" and args:
            self.gone(E, st, I, args[0], "releases")
        elif name and name.startswith(("llvm.mem", "mem", "str")):
            for v in args[:2]:
                self.gone(E, st, I, v, "changes or reads")
        return None


def const(I):
    return I.ops[0].v if I.op == "store" and I.ops[0].kind == "c" and I.ops[0].v else None


def several(m):
    """threads of which there may be several: created for clients or in a loop"""
    r = set()
    for t, c in thread_roots(m).items():
        up = {f.name for f in m.funcs() for I in f.calls(c)} | {c}
        if c in m.address_taken() or any(looped(m, f, up) for f in up):
            r.add(t)
    return r


def looped(m, n, names):
    """n calls one of names inside a loop"""
    f = m.func(n)
    for b in f.blocks:
        if any(I.op == "call" and (I.x in names or n in names and I.x == "pthread_create") for I in b.ins):
            seen, todo = set(), list(b.succ)
            while todo:
                x = todo.pop()
                if x is b:
                    return True
                if id(x) not in seen:
                    seen.add(id(x))
                    todo += x.succ
    return False
