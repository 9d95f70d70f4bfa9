"""M03 the result of an allocation or open is tested before it is used"""
import allprogs, flow
from util import *
EXPLANATION = ("Every function of every program is interpreted on all paths; the result of each call that may return a null pointer "
               "(allocation, opening a stream or directory, or a function of nbsp that returns such a result) is followed, and every "
               "use of it as an address, directly or by a called function that does not test it, must be on a path where it is known not to be null.")
SRC = {"malloc", "calloc", "realloc", "strdup", "strndup", "fopen", "fdopen", "popen", "opendir", "gzopen", "tmpfile", "freopen", "gzdopen"}
# arguments that the C library dereferences
DEREF = {"memcpy": (0, 1), "memmove": (0, 1), "memset": (0,), "memcmp": (0, 1), "strcpy": (0, 1), "strncpy": (0, 1), "strcat": (0, 1),
         "strncat": (0, 1), "strlen": (0,), "strcmp": (0, 1), "strncmp": (0, 1), "strcasecmp": (0, 1), "strncasecmp": (0, 1), "strchr": (0,), "strrchr": (0,),
         "strstr": (0, 1), "strdup": (0,), "strndup": (0,), "sprintf": (0,), "snprintf": (0,), "vsnprintf": (0,), "fprintf": (0,), "fread": (0, 3),
         "fwrite": (0, 3), "fgets": (0, 2), "fputs": (0, 1), "fputc": (1,), "fclose": (0,), "pclose": (0,), "fflush": (), "getc": (0,), "fgetc": (0,),
         "feof": (0,), "ferror": (0,), "fseek": (0,), "ftell": (0,), "readdir": (0,), "closedir": (0,), "fileno": (0,), "strspn": (0, 1),
         "strcspn": (0, 1), "strpbrk": (0, 1), "atoi": (0,), "strtol": (0,), "strtoul": (0,), "fopen": (0, 1), "vfprintf": (0,),
         "putc": (1,), "ungetc": (1,), "rewind": (0,), "setvbuf": (0,), "pthread_mutex_init": (0,), "pthread_cond_init": (0,), "gzread": (), "gzclose": ()}


class Spec(flow.Spec):
    """prop: symbols that may be null until tested: (symbol, where it comes from)"""

    def __init__(self, chk, f, summ):
        self.chk, self.f, self.summ = chk, f, summ
        self.derefs, self.nullable = set(), None
        self.bad, self.used = {}, set()
        self.rets = {}          # class of the returned value -> arguments that are not null then

    def init(self, E, st):
        return frozenset()

    def prop_syms(self, p):
        return tuple(s for s, w in p)

    def prop_rename(self, p, m):
        return frozenset((flow.subst(s, m), w) for s, w in p)

    def prop_drop(self, p, sym):
        return frozenset(x for x in p if x[0] != sym)

    def use(self, E, st, I, v, how):
        if how == "dereferenced" and v[0] == "c" and v[1] == 0 or how == "dereferenced" and v[0] == "s" and E.isnull(st, ("s", E.root(v[1]), 0)):
            self.bad.setdefault(("a pointer", how), (I, E.path(st, I)))
            return
        if v[0] != "s":
            return
        r = E.root(v[1])
        if E.nonnull(st, ("s", r, 0)):
            for s, w in st.prop:
                if s == r:
                    self.used.add(w.rstrip("!"))
            return
        if r[0] == "a":
            self.derefs.add(r[1])
            return
        for s, w in st.prop:
            w = w.rstrip("!")
            if s == r:
                self.bad.setdefault((w, how), (I, E.path(st, I)))

    def load_value(self, E, st, I, addr, size, cls):
        if addr[1] == ("g", "errno"):
            # read after a failure
            v = E.fresh(st, I)
            st.ne = st.ne | {(v[1], 0)}
            return v
        return None

    def on_load(self, E, st, I, addr, cls):
        self.use(E, st, I, addr, "dereferenced")

    def on_store(self, E, st, I, addr, val, cls):
        self.use(E, st, I, addr, "dereferenced")

    def on_call(self, E, st, I, name, args):
        d = self.summ["derefs"].get(name)
        if d is None:
            d = DEREF.get(name, ()) if name else ()
            if name and name.startswith(("llvm.memcpy", "llvm.memmove")):
                d = (0, 1)
            elif name and name.startswith("llvm.memset"):
                d = (0,)
            if name and name.startswith("llvm.mem") and E.const(st, args[2]) == 0:
                d = ()
        for i in d:
            if i < len(args):
                self.use(E, st, I, args[i], "used by %s" % name)
        if name == "__errno_location":
            return [(st, ("s", ("g", "errno"), 0))]
        tests = self.summ["tests"].get(name)
        if tests:
            mine = {i: E.root(a[1]) for i, a in enumerate(args) if a[0] == "s" and any(i in t for t in tests.values()) and
                    (E.root(a[1])[0] == "a" or any(E.root(a[1]) == x for x, w in st.prop)) and not E.nonnull(st, ("s", E.root(a[1]), 0))}
            if mine:
                out = []
                v = E.default_call(st, I, name, args)
                for c, ok in sorted(tests.items()):
                    n = st.copy()
                    val = v
                    if c == "zero":
                        val = ("c", 0)
                    elif c == "nonzero":
                        n.ne = n.ne | {(v[1], 0)}
                    for i, r in mine.items():
                        if i in ok:
                            n.ne = n.ne | {(r, 0)}
                    out.append((n, val))
                return out
        src = name in SRC or name in self.summ["nullable"]
        if src:
            v = E.default_call(st, I, name, args)
            v = E.fresh(st, I)
            st.prop = st.prop | {(v[1], "%s at %s" % (name, where(I)))}
            return [(st, v)]
        return None

    def on_branch(self, E, st, I, v, t):
        syms = set(flow.vsyms(v))
        for s, w in list(st.prop):
            if s in syms:
                # tested, whatever the outcome
                st.prop = st.prop - {(s, w)} | {(s, w + "!")}
    on_select = on_branch

    def on_ret(self, E, st, I, val):
        kept = {v[0][1] for k, v in st.mem.items() if E.root(k[0])[0] != "al" and v[0][0] == "s"}
        ptr = any(I.ops[0].w == "p" for J in (I,) if J.ops)
        good = val is None or (not E.isnull(st, val) if ptr else E.truth(st, val) is not True)
        for s, w in st.prop:
            if good and s in kept and not w.endswith("!") and not E.nonnull(st, ("s", s, 0)):
                self.bad.setdefault((w, "kept untested"), (I, E.path(st, I)))
        for c, n in ([("void", st)] if val is None else [("nonzero", x) for x in E.assume(st.copy(), val, True)] +
                     [("zero", x) for x in E.assume(st.copy(), val, False)]):
            ok = frozenset(i for i in range(len(self.f.args)) if E.nonnull(n, ("s", ("a", i), 0)) and i not in self.derefs)
            self.rets[c] = self.rets.get(c, ok) & ok
        if val is None or self.nullable:
            return
        if val[0] == "s" and any(s == val[1] for s, w in st.prop) and not E.nonnull(st, val):
            self.nullable = True
        elif E.isnull(st, val):
            self.nullable = self.nullable or None
            self.retnull = True
    retnull = False


def check(chk):
    chk.rule = "no use of a possibly null result before it is tested"
    done = {}
    summ = None
    prog = None
    for p, m, f, k, new in allprogs.each(chk):
        if p != prog:
            summ = {"derefs": {}, "nullable": set(), "tests": {}}
            prog = p
        if new:
            s = Spec(chk, f, summ)
            chk.run_flow(f, s, mods=chk.ctx.mods(p), K=8, KL=2)
            ptr = any(I.op == "ret" and I.ops and I.ops[0].w == "p" for I in f.instrs())
            tests = {c: ok - s.derefs for c, ok in s.rets.items()}
            if not any(tests.values()):
                tests = None
            done[k] = (s.derefs, bool(ptr and (s.nullable or s.retnull)), tests)
            for w in s.used:
                chk.ok("%s is tested before it is used" % w.split(" at ")[0], w.split(" at ")[1])
            for (w, how), (I, path) in sorted(s.bad.items(), key=lambda x: str(x[0])):
                chk.violation("%s:%s:%s" % (f.name, w.split(" at ")[0], how), I.file, I.line, f.name,
                              "%s is %s although it may be null" % (w if w == "a pointer" else "the result of " + w, how), path)
            chk.count("functions interpreted")
        d, n, t = done[k]
        summ["tests"][f.name] = t
        summ["derefs"][f.name] = d
        if n:
            summ["nullable"].add(f.name)
    chk.atleast("functions interpreted", 800)
