"""Ownership of memory, descriptors and streams: one bottom-up analysis, from which M01 and M02 report."""
import allprogs, flow, ops
from util import *

ACQ = {"malloc": "heap", "calloc": "heap", "strdup": "heap", "strndup": "heap", "fopen": "file", "popen": "pipe",
       "opendir": "dir", "open": "fd", "socket": "fd", "accept": "fd", "dup": "fd", "creat": "fd", "mkstemp": "fd", "epoll_create": "fd",
       "tmpfile": "file", "gzopen": "gz"}
REL = {"free": "heap", "fclose": "file", "pclose": "pipe", "closedir": "dir", "close": "fd", "gzclose": "gz", "freeaddrinfo": "ai"}
# external functions that keep what they are given
KEEPS = {"pthread_create", "putenv", "setbuf", "setvbuf", "atexit", "pthread_setspecific", "pthread_cleanup_push", "gzdopen",
         "_pthread_cleanup_push", "__pthread_register_cancel"}
INTK = ("fd",)


class Spec(flow.Spec):
    """prop: frozenset of (symbol, kind, acquired at, state, parent symbol); state: open, kept, closed"""

    def __init__(self, chk, m, f, summ):
        self.chk, self.m, self.f, self.summ = chk, m, f, summ
        self.ptr = any(I.op == "ret" and I.ops and I.ops[0].w == "p" for I in f.instrs())
        self.left = {}          # variables of the caller that still refer to what was released
        self.threads = set()    # (start routine, argument owned)
        self.leaks, self.twice, self.stale = {}, {}, {}
        self.eff = {}           # class -> arg -> set of effects
        self.outs = {}          # class -> {(arg, off): set of kinds or None}
        self.rk = {}            # class -> set of kinds returned (None: something else)
        self.acquired, self.kinds = set(), {}
        self.released = set()
        self.lcls = {}          # symbol of a loaded value -> class of the member it was loaded from
        self.put, self.taken = {}, set()        # members that are given an owned value; members whose value is released
        self.peff = {}          # class -> [set of (arg, off) released, on every path]

    def init(self, E, st):
        return frozenset((("a", i), "arg", "", "open", None) for i in range(len(self.f.args)))

    def release_pointee(self, E, st, I, v):
        """the value of a member of an argument is released"""
        if v[0] != "s":
            return
        for k, (val, n, c) in st.mem.items():
            if val == v and k[0][0] == "a":
                st.prop = st.prop | {((("p",) + (k[0][1], k[1])), "parg", "", "closed", None)}
                if c is None or n == 4:
                    # the variable of the caller, or the descriptor, must not survive
                    st.prop = st.prop | {(("a", ("left", v[1]) + k), "left", where(I), "closed", None)}

    def prop_syms(self, p):
        return tuple(x[0] for x in p if x[0][0] not in ("a", "p") and x[1] != "lost") + tuple(x[4] for x in p if x[4] is not None)

    def prop_rename(self, p, m):
        p = (x for x in p if x[1] != "left" or x[0][1][1] not in m)
        return frozenset((flow.subst(x[0], m),) + x[1:4] + (flow.subst(x[4], m) if x[4] else x[4],) for x in p)

    def prop_drop(self, p, sym):
        r = set()
        for x in p:
            if x[1] == "left":
                if x[0][1][1] != sym:
                    r.add(x)
                continue
            if x[0] == sym or sym in flow.leaves(x[0]):
                if x[3] == "open" and x[1] != "arg" and x[4] is None:
                    self.leak(x, None, None, "overwritten")
                continue
            r.add(x[:4] + (None,) if x[4] == sym else x)
        return frozenset(r)

    # ---- reporting
    def leak(self, x, I, path, how):
        self.leaks.setdefault((x[1], x[2]), (I, path, how))

    def get(self, E, st, v):
        if v[0] != "s":
            return None
        for x in st.prop:
            if x[0] == v[1] and (v[2] == 0):
                return x
        return None

    def set(self, st, x, state, parent=None):
        n = x[:3] + (state, parent)
        ps = set(st.prop) - {x}
        ps.add(n)
        if state in ("kept",):
            # what belongs to it goes with it
            ps = {(y[:3] + ("kept", None) if y[4] == x[0] else y) for y in ps}
        st.prop = frozenset(ps)

    def release(self, E, st, I, v, deep=False):
        x = self.get(E, st, v)
        if v[0] == "s" and v[1] in self.lcls:
            self.taken.add(self.lcls[v[1]])
        if x is None:
            self.release_pointee(E, st, I, v)
            return
        if x[3] == "closed":
            if x[1] != "arg":
                self.twice.setdefault((x[1], x[2]), (I, E.path(st, I)))
            return
        self.released.add(where(I))
        for y in list(st.prop):
            if y[4] == x[0] and y[3] == "open":
                if deep:
                    self.set(st, y, "kept")
                elif y[1] != "arg" and not self.held(E, st, y, x[0]):
                    self.leak(y, I, E.path(st, I), "the structure that holds it is freed")
                    self.set(st, y, "kept")
                else:
                    self.set(st, y, "open", None)
        self.set(st, x, "closed")

    def held(self, E, st, y, parent):
        """does a local value still refer to it"""
        for v in st.env.values():
            if v[0] == "s" and v[1] == y[0]:
                return True
        return any(v[0][0] == "s" and v[0][1] == y[0] and E.root(k[0]) != parent for k, v in st.mem.items())

    # ---- events
    def touch(self, E, st, I, addr):
        if addr[0] == "s":
            r = E.root(addr[1])
            for x in st.prop:
                if x[0] == r and x[3] == "closed" and x[1] == "heap":
                    self.stale.setdefault((x[1], x[2]), (I, E.path(st, I)))

    def on_load(self, E, st, I, addr, cls):
        self.touch(E, st, I, addr)
        if cls:
            v = E.peek(st, addr)
            self.lcls[v[1] if v and v[0] == "s" else ("i", I.id)] = cls

    def on_store(self, E, st, I, addr, val, cls):
        self.touch(E, st, I, addr)
        x = self.get(E, st, val)
        if x is None or x[3] != "open":
            return
        r = E.root(addr[1]) if addr[0] == "s" else None
        if r is not None and r[0] == "al":
            return
        if cls and x[1] != "arg":
            self.put.setdefault(cls, (x[1], x[2]))
        for y in st.prop:
            if y[0] == r and y[1] == "heap" and y[3] == "open":
                self.set(st, x, "open", r)
                return
        self.set(st, x, "kept")

    def acquire(self, E, st, v, kind, w):
        self.acquired.add(w)
        self.kinds[w] = kind
        st.prop = st.prop | {(v[1], kind, w, "open", None)}
        E.rng(st, v, 0 if kind in INTK else 1, None)

    def on_call(self, E, st, I, name, args):
        w = "%s at %s" % (name, where(I))
        if name in ACQ:
            k = ACQ[name]
            E.default_call(st, I, name, args)
            v = E.fresh(st, I)
            b = st.copy()
            self.acquire(E, st, v, k, w)
            return [(st, v), (b, ("c", -1 if k in INTK else 0))]
        if name == "realloc":
            E.default_call(st, I, name, args)
            x = self.get(E, st, args[0])
            v = E.fresh(st, I)
            b = st.copy()
            if x is not None:
                self.set(st, x, "kept")
            else:
                x = None
            self.acquire(E, st, v, "heap", w)
            if x is not None and x[4]:
                self.set(st, self.get(E, st, v), "open", x[4])
            return [(st, v), (b, ("c", 0))]
        if name == "fdopen":
            E.default_call(st, I, name, args)
            v = E.fresh(st, I)
            b = st.copy()
            x = self.get(E, st, args[0])
            if x is not None:
                self.set(st, x, "kept")
            self.acquire(E, st, v, "file", w)
            return [(st, v), (b, ("c", 0))]
        if name in REL:
            for v in args[:1]:
                self.release(E, st, I, v)
            E.default_call(st, I, name, args)
            return [(st, E.fresh(st, I))]
        if name in ("db_create", "db_env_create") and args[0][0] == "s":
            E.default_call(st, I, name, args)
            v = E.fresh(st, I)
            b = st.copy()
            nv = E.fresh(st, I, "db")
            E.store(st, args[0], nv, 8, None)
            self.acquire(E, st, nv, "db", w)
            if E.root(args[0][1])[0] != "al":
                self.set(st, self.get(E, st, nv), "kept")
            b.ne = b.ne | {(v[1], 0)}
            return [(st, ("c", 0)), (b, v)]
        if name is None:
            op = ops.db_op(self.m, I)
            if op:
                if op == "close":
                    self.release(E, st, I, args[0])
                E.default_call(st, I, name, args)
                return [(st, E.fresh(st, I))]
        tracked = [(i, self.get(E, st, a)) for i, a in enumerate(args)]
        # memory handed over through the address of a local
        tracked = [(i, x) for i, x in tracked if x is not None]
        for i, x in tracked:
            if x[3] == "closed" and x[1] == "heap" and name and not is_log(name):
                self.stale.setdefault((x[1], x[2]), (I, E.path(st, I)))
        s = self.summ.get(name)
        if s is None:
            if name == "pthread_create" and len(args) > 3 and I.ops[2].kind == "f":
                x = self.get(E, st, args[3])
                if x is not None and x[1] == "heap":
                    self.threads.add((I.ops[2].v, x[2]))
            if name is None or name in KEEPS or not self.known(name):
                for i, x in tracked:
                    if x[3] == "open":
                        self.set(st, x, "kept")
                self.expose(E, st, args)
            return None
        for i, a in enumerate(args):
            if a[0] == "s" and a[1] in self.lcls and any("rel" in e.get(i, ()) for e in s["eff"].values()):
                self.taken.add(self.lcls[a[1]])
        pts, pargs = {}, {}
        for i, o in {k for e in s["peff"].values() for k in e}:
            if i < len(args) and args[i][0] == "s":
                a = args[i]
                pts[(i, o)] = (E.peek(st, ("s", a[1], a[2] + o)), ("p", a[1][1], a[2] + o) if a[1][0] == "a" else None)
        for i, a in enumerate(args):
            if a[0] == "s":
                rs = [("p", k[0][1], k[1]) for k, (v2, n2, c2) in st.mem.items() if v2 == a and k[0][0] == "a"]
                if rs:
                    pargs[i] = rs
        if not tracked and not s["out"] and not s["ret"] and not pts:
            return None
        v = E.default_call(st, I, name, args)
        if v is None or v[0] != "s":
            v = E.fresh(st, I)
        out = []
        for c in s["classes"]:
            n = st.copy()
            val = v
            if c in ("zero", "null"):
                if s["ret"].get(c):
                    continue        # descriptor 0: as the positive ones
                val = ("c", 0)
            elif c == "neg":
                E.rng(n, v, None, -1)
            elif c in ("pos", "nonnull"):
                E.rng(n, v, 1, None)
            for i, x in tracked:
                e = s["eff"].get(c, {}).get(i, set())
                x = self.get(E, n, args[i])
                if x is None or x[3] != "open" or not e or e == {"none"}:
                    continue
                if e == {"rel"}:
                    self.release(E, n, I, args[i], deep=True)
                else:
                    self.set(n, x, "kept")
            for i, rs in pargs.items():
                if s["eff"].get(c, {}).get(i) == {"rel"}:
                    n.prop = n.prop | {(r, "parg", "", "closed", None) for r in rs}
            for (i, o), (val2, mine) in pts.items():
                e = s["peff"].get(c, {}).get((i, o), set())
                x = self.get(E, n, val2) if val2 is not None else None
                if x is not None and x[3] == "open":
                    if e == {"rel"}:
                        self.release(E, n, I, val2)
                    elif "rel" in e:
                        self.set(n, x, "kept")
                elif x is None and mine and e == {"rel"}:
                    n.prop = n.prop | {(mine, "parg", "", "closed", None)}
            k = s["ret"].get(c)
            if k:
                self.acquire(E, n, val, k, w)
            for (i, o), k in s["out"].get(c, {}).items():
                if i < len(args) and args[i][0] == "s" and E.root(args[i][1])[0] == "al":
                    nv = E.fresh(n, I, "out%d.%d" % (i, o))
                    E.store(n, ("s", args[i][1], args[i][2] + o), nv, 4 if k in INTK else 8, None)
                    self.acquire(E, n, nv, k, w)
            out.append((n, val))
        return out

    def known(self, name):
        """external functions that only look at what they are given"""
        return name in flow.EXTWRITES or name in flow.PUREISH or name.startswith("llvm.") or name in (
            "fprintf", "fgets", "fread", "fwrite", "fputs", "getc", "fgetc", "feof", "ferror", "fseek", "ftell", "readdir", "fileno",
            "memcpy", "memcmp", "strcmp", "isatty", "shutdown", "getsockopt", "getpeername", "getsockname", "fchmod", "fchown", "vfprintf",
            "sendfile", "ioctl", "dup2", "regcomp", "regfree", "sscanf", "strtok_r", "strsep", "qsort", "inet_ntop", "inet_pton",
            "pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_attr_init", "bzero",
            "ferror", "clearerr", "fscanf", "getline", "lockf", "flock", "execv", "execvp", "execl", "execlp", "glob", "realpath",
            "fputc", "putc", "ungetc", "strcspn", "strtod", "atof", "uncompress", "compress", "inflate", "deflate", "memchr")

    def expose(self, E, st, args):
        roots = {E.root(a[1]) for a in args if a[0] == "s"}
        for k, (v, n, c) in list(st.mem.items()):
            if E.root(k[0]) in roots and v[0] == "s":
                x = self.get(E, st, v)
                if x is not None and x[3] == "open" and E.root(k[0])[0] == "al":
                    self.set(st, x, "kept")

    def on_branch(self, E, st, I, v, t):
        # what was just acquired is distinct from what was there before
        if v[0] == "cmp" and v[1] in ("eq", "ne") and (v[1] == "eq") == t and v[2][0] == "s" and v[3][0] == "s":
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                x = self.get(E, st, a)
                if x is not None and x[1] not in INTK + ("arg",) and x[3] == "open" and x[4] is None and b[1] != a[1] and x[0] not in flow.leaves(b[1]):
                    return False
        return None

    # ---- summary
    def classes(self, E, st, val):
        if val is None:
            return [("void", st)]
        r = []
        cmp = lambda p: ("cmp", p, val, ("c", 0), 64)
        if val[0] not in ("c", "s"):
            return [("pos", s) for s in E.assume(st.copy(), val, True)] + [("zero", s) for s in E.assume(st.copy(), val, False)]
        for c, p in ([("null", "eq"), ("nonnull", "ne")] if self.ptr else [("neg", "slt"), ("zero", "eq"), ("pos", "sgt")]):
            for s in E.assume(st.copy(), cmp(p), True):
                r.append((c, s))
        return r

    def on_ret(self, E, st, I, val):
        gone = {x[0] for x in st.prop if x[1] == "arg" and x[3] == "closed"}
        for x in st.prop:
            if x[1] == "left":
                k = x[0][1][2:]
                if st.mem.get(k, (0,))[0] == ("s", x[0][1][1], 0) and k[0] not in gone:
                    self.left.setdefault((k, x[2]), (I, E.path(st, I), st.mem[k][1]))
        st.prop = frozenset(x for x in st.prop if x[1] != "left")
        for c, s in self.classes(E, st, val):
            e = self.eff.setdefault(c, {})
            for x in s.prop:
                if x[1] == "arg":
                    e.setdefault(x[0][1], set()).add({"open": "kept" if x[4] else "none", "kept": "kept", "closed": "rel"}[x[3]])
            self.peff.setdefault(c, []).append(
                ({(x[0][1], x[0][2]) for x in s.prop if x[1] == "parg"},
                 {(k[0][1], k[1]) for k, (v, n, c2) in s.mem.items() if k[0][0] == "a" and (v[0] == "c" or E.isnull(s, v) or (s.hi(v) or 0) < 0)}))
            rx = self.get(E, s, val) if val is not None else None
            if rx is not None and rx[1] == "arg":
                e.setdefault(rx[0][1], set()).add("kept")
                rx = None
            if rx is not None and rx[3] == "closed":
                if rx[1] != "arg" and c != "null":
                    self.stale.setdefault((rx[1], rx[2]), (I, E.path(s, I)))
                rx = None
            if c in ("nonnull", "pos", "zero") and val is not None:
                self.rk.setdefault(c, set()).add(rx[1] if rx is not None and rx[3] == "open" else None)
            o = {}
            for (sym, off), (v, n, cls) in s.mem.items():
                if sym[0] == "a" and v[0] == "s":
                    x = self.get(E, s, v)
                    if x is not None and x[1] != "arg" and x[3] == "kept" and cls is None:
                        o[(sym[1], off)] = x[1]
            po = self.outs.get(c)
            self.outs[c] = o if po is None else {k: k2 for k, k2 in po.items() if o.get(k) == k2}
            for x in s.prop:
                if x[1] in ("arg", "parg") or x[3] != "open" or x is rx or x[4] is not None:
                    continue
                if rx is not None and self.descends(s, x, rx):
                    continue
                if E.isnull(s, ("s", x[0], 0)) and x[1] not in INTK:
                    continue
                self.leak(x, I, E.path(s, I), "returns without releasing it")
            # what belongs to a structure that is lost is lost with it; reported once

    def descends(self, st, x, r):
        return x[4] == r[0]

    def summary(self):
        ret = {}
        for c, ks in self.rk.items():
            if len(ks) == 1 and None not in ks and not (c == "zero" and not next(iter(ks)) in INTK):
                ret[c] = next(iter(ks))
        cl = sorted(set(self.eff) | set(self.rk))
        peff = {}
        for c, l in self.peff.items():
            for k in {k for r, n in l for k in r}:
                peff.setdefault(c, {})[k] = {"rel" if k in r or k in n else "none" for r, n in l}
        return {"classes": cl, "eff": self.eff, "peff": peff, "ret": ret, "out": {c: o for c, o in self.outs.items() if o}}


def run(chk, programs=None):
    """yields (program, function, Spec) for every function once"""
    done, summ, prog = {}, None, None
    for p, m, f, k, new in allprogs.each(chk, programs):
        if p != prog:
            summ, prog = {}, p
        if new:
            s = Spec(chk, m, f, summ)
            chk.run_flow(f, s, mods=chk.ctx.mods(p), K=16, KL=3)
            done[k] = s.summary()
            chk.count("functions interpreted")
            yield p, f, s
        summ[f.name] = done[k]
