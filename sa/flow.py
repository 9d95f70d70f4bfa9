"""Path-sensitive abstract interpretation of one (flattened) LLVM function.

A state is: the abstract value of every live SSA value, an abstract memory
(address -> value), a zone (difference constraints between symbols, with
zero), a set of disequalities, and the state of the property automaton.
States at a block are kept apart while their property state differs and, up to
a bound, while their values differ; beyond the bound they are joined, and
joins are widened, so that the analysis terminates.  No solver is involved.

Values:  ('c', n)  |  ('s', sym, k) = sym + k  |  boolean terms
('cmp', pred, a, b), ('and', x, y), ('or', x, y), ('not', x)
Symbols: ('al', id) alloca, ('g', name), ('f', name), ('a', n) argument,
('i', id) instruction, ('ix', base, id) element of base, ('op', ...) pure
operation, ('j', block, key) join, ('o', sym) the value sym had before its
instruction ran again.
"""
import heapq

Z = "Z"
INF = 1 << 70
NEG = {"eq": "ne", "ne": "eq", "ugt": "ule", "ule": "ugt", "uge": "ult", "ult": "uge",
       "sgt": "sle", "sle": "sgt", "sge": "slt", "slt": "sge"}
SWAP = {"eq": "eq", "ne": "ne", "ugt": "ult", "ult": "ugt", "uge": "ule", "ule": "uge",
        "sgt": "slt", "slt": "sgt", "sge": "sle", "sle": "sge"}
ADDR = ("al", "g", "f")
_contains = {}


def leaves(sym):
    """base symbols a symbol is built from"""
    r = _contains.get(sym)
    if r is None:
        s = set()
        if isinstance(sym, tuple) and sym:
            if sym[0] in ("i", "j"):
                s.add(sym)
            for x in sym:
                if isinstance(x, tuple):
                    s |= leaves(x)
        r = _contains[sym] = frozenset(s)
    return r


def vsyms(v):
    k = v[0]
    if k == "s":
        return (v[1],)
    if k == "cmp":
        return vsyms(v[2]) + vsyms(v[3])
    if k in ("and", "or"):
        return vsyms(v[1]) + vsyms(v[2])
    if k == "not":
        return vsyms(v[1])
    return ()


def subst(x, m):
    """rename symbols inside nested tuples"""
    if isinstance(x, tuple):
        r = m.get(x)
        if r is not None:
            return r
        if x and x[0] == "c":
            return x
        n = tuple(subst(y, m) if isinstance(y, tuple) else y for y in x)
        return n if n != x else x
    return x


class St:
    __slots__ = ("env", "mem", "D", "ne", "prop", "trace", "own", "note")

    def __init__(self):
        self.env, self.mem, self.D, self.ne, self.prop = {}, {}, {}, frozenset(), None
        self.trace = None
        self.own = True
        self.note = None

    def copy(self):
        n = St.__new__(St)
        n.env, n.mem = dict(self.env), dict(self.mem)
        n.D = self.D
        n.own = False
        self.own = False
        n.ne, n.prop, n.trace, n.note = self.ne, self.prop, self.trace, self.note
        return n

    # ---- zone: D[a][b] = c  means a - b <= c
    def _mine(self):
        if not self.own:
            self.D = {a: dict(r) for a, r in self.D.items()}
            self.own = True

    def ub(self, a, b):
        if a == b:
            return 0
        r = self.D.get(a)
        return INF if r is None else r.get(b, INF)

    def add(self, a, b, c):
        """a - b <= c; False if contradictory"""
        if a == b:
            return c >= 0
        if c >= self.ub(a, b):
            return True
        if self.ub(b, a) + c < 0:
            return False
        self._mine()
        D = self.D
        ins = [(a, 0)] + [(x, r[a]) for x, r in D.items() if a in r and x != a]
        outs = [(b, 0)] + [(y, k) for y, k in D.get(b, {}).items() if y != b]
        for x, c1 in ins:
            rx = D.setdefault(x, {})
            for y, c2 in outs:
                if x == y:
                    if c1 + c + c2 < 0:
                        return False
                    continue
                t = c1 + c + c2
                if t < rx.get(y, INF):
                    rx[y] = t
        return True

    def hi(self, v):
        if v[0] == "c":
            return v[1]
        if v[0] == "s":
            return self.ub(v[1], Z) + v[2]
        return 1

    def lo(self, v):
        if v[0] == "c":
            return v[1]
        if v[0] == "s":
            return v[2] - self.ub(Z, v[1])
        return 0

    def diff_ub(self, a, b):
        """upper bound of a - b (mathematical, signed)"""
        if a[0] == "c":
            sa, ka = Z, a[1]
        elif a[0] == "s":
            sa, ka = a[1], a[2]
        else:
            sa, ka = Z, 1
        if b[0] == "c":
            sb, kb = Z, b[1]
        elif b[0] == "s":
            sb, kb = b[1], b[2]
        else:
            sb, kb = Z, 0
        r = self.ub(sa, sb) + ka - kb
        return r if r < INF // 2 else INF

    def forget(self, sym):
        if sym in self.D or any(sym in r for r in self.D.values()):
            self._mine()
            self.D.pop(sym, None)
            for r in self.D.values():
                r.pop(sym, None)
        if any(x[0] == sym for x in self.ne):
            self.ne = frozenset(x for x in self.ne if x[0] != sym)

    def symbols(self):
        s = set()
        for v in self.env.values():
            s.update(vsyms(v))
        for k, v in self.mem.items():
            s.add(k[0])
            s.update(vsyms(v[0]))
        return s

    keepix = False

    def gc(self, extra=()):
        s = self.symbols()
        if St.keepix:
            for v in list(self.env.values()) + [x[0] for x in self.mem.values()]:
                if v[0] == "s" and v[1][0] == "ix":
                    s.update(x[0][1] for x in v[1][3] if x[0][0] == "s")
        s.update(extra)
        s.add(Z)
        s.update(a for a in self.D if a[0] == "a")
        if any(a not in s or any(b not in s for b in r) for a, r in self.D.items()):
            D = {}
            for a, r in self.D.items():
                if a in s:
                    r2 = {b: c for b, c in r.items() if b in s}
                    if r2:
                        D[a] = r2
            self.D, self.own = D, True
        if self.ne:
            self.ne = frozenset(x for x in self.ne if x[0] in s)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()),
                frozenset((a, b, c) for a, r in self.D.items() for b, c in r.items()), self.ne)


NORETURN = {"exit", "_exit", "abort", "pthread_exit", "__assert_fail", "errx", "err", "_Exit"}
# external functions that write through some of their arguments only
EXTWRITES = {"stat": (1,), "lstat": (1,), "fstat": (1,), "read": (1,), "recv": (1,), "recvfrom": (1, 4, 5), "memcpy": (0,),
             "snprintf": (0,), "sprintf": (0,), "vsnprintf": (0,), "strncpy": (0,), "strcpy": (0,), "strcat": (0,),
             "strncat": (0,), "fgets": (0,), "fread": (0,), "pread": (1,), "poll": (0,), "nanosleep": (1,),
             "clock_gettime": (1,), "gettimeofday": (0, 1), "localtime_r": (1,), "gmtime_r": (1,), "strftime": (0,),
             "send": (), "sendto": (), "pwrite": (), "lseek": (), "fopen": (), "remove": (), "link": (), "symlink": (),
             "chmod": (), "chown": (), "fdopen": (), "fileno": (), "opendir": (), "getenv": (), "basename": (),
             "pthread_cond_wait": (), "pthread_cond_timedwait": (), "pthread_setcancelstate": (1,), "setsockopt": (),
             "bind": (), "connect": (), "listen": (), "accept": (1, 2), "socket": (), "fcntl": (), "ftruncate": (),
             "strspn": (), "strcspn": (), "strpbrk": (), "memchr": (), "strerror": (), "regexec": (3,), "perror": (),
             "waitpid": (1,), "fsync": (), "setsid": (), "dup2": (), "dup": (), "fork": (), "getppid": (), "fputc": (),
             "strdup": (), "strndup": (), "putc": (), "writev": ()}
# external functions that write nothing the analysed code reads back
PUREISH = {"strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "strchr", "strrchr", "strstr",
           "isalpha", "isdigit", "isspace", "toupper", "tolower", "isupper", "isalnum", "free", "close", "write",
           "log_info", "log_warn", "log_warnx", "log_verbose", "log_debug", "log_err2", "printf", "fprintf",
           "time", "atoi", "abs", "ntohs", "ntohl", "htons", "htonl", "__ctype_b_loc", "syslog", "vsyslog",
           "unlink", "sleep", "usleep", "access", "fflush", "puts", "getpid", "rand", "random",
           "log_errx_", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock",
           "pthread_cond_signal", "pthread_cond_broadcast", "closedir", "fclose", "kill", "umask", "mkdir", "rename",
           "malloc", "calloc", "strdup", "strtol", "strtoul", "fputs", "fwrite", "open", "chdir", "crc32"}


class Engine:
    def __init__(self, func, spec, K=24, KL=3, mods=None, max_steps=400000, strict_nsw=False):
        self.f = func
        self.spec = spec
        self.K, self.KL = K, KL
        self.mods = mods
        self.max_steps = max_steps
        self.strict_nsw = strict_nsw
        self.steps = 0
        self.findings = {}
        self.joins = 0
        self.truncated = False
        self.visited_blocks = set()
        self._prep()

    # ---- static preparation
    thresholds = (-1, 0, 1, 2, 4, 8, 16, 64, 255, 256, 1 << 16, 1 << 32)
    head_thresholds = None
    deepjoin = ()   # kinds of expressions that are joined operand by operand
    joinptr = False # pointers into one object stay pointers into it when they are joined
    keepix = ()     # element sizes of the arrays whose element pointers keep their index
    pairs = ()      # thresholds for the differences of two symbols when states are joined

    def _prep(self):
        f = self.f
        order, seen, stack = [], set(), [(f.blocks[0], iter(f.blocks[0].succ))]
        seen.add(f.blocks[0].id)
        onstk = {f.blocks[0].id}
        self.backedge = set()
        while stack:
            b, it = stack[-1]
            for s in it:
                if s.id in onstk:
                    self.backedge.add((b.id, s.id))
                if s.id not in seen:
                    seen.add(s.id)
                    onstk.add(s.id)
                    stack.append((s, iter(s.succ)))
                    break
            else:
                order.append(b)
                onstk.discard(b.id)
                stack.pop()
        order.reverse()
        self.rpo = {b.id: i for i, b in enumerate(order)}
        self.heads = {t for _, t in self.backedge}
        # liveness
        use, deff, phiuse = {}, {}, {}
        for b in order:
            u, d = set(), set()
            for I in b.ins:
                if I.op == "phi":
                    for v, p in I.ops:
                        if v.kind == "i":
                            phiuse.setdefault(p.id, set()).add(v.v.id)
                else:
                    for v in self._opvals(I):
                        x = v
                        while x.kind == "ge":
                            x = x.v[0]
                        if x.kind == "i" and x.v.id not in d:
                            u.add(x.v.id)
                d.add(I.id)
            use[b.id], deff[b.id] = u, d
        live = {b.id: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set(phiuse.get(b.id, ()))
                for s in b.succ:
                    o |= live[s.id] - {I.id for I in s.ins if I.op == "phi"}
                n = use[b.id] | (o - deff[b.id])
                # phi results are defined on entry
                if n != live[b.id]:
                    live[b.id] = n
                    ch = True
        self.live = live
        self.used = set()
        for I in f.instrs():
            for v in ([x for x, _ in I.ops] if I.op == "phi" else self._opvals(I)):
                if v.kind == "i":
                    self.used.add(v.v.id)
        # allocas whose address is stored somewhere
        self.addr_stored = set()
        self.heap = {I.id for I in f.instrs() if I.op == "call" and I.x in ("malloc", "calloc", "strdup")}
        for I in f.instrs():
            if I.op == "store" and I.ops[0].kind == "i":
                x = I.ops[0].v
                while x.op in ("gep", "bitcast"):
                    if x.ops[0].kind != "i":
                        break
                    x = x.ops[0].v
                if x.op == "alloca":
                    self.addr_stored.add(x.id)

    @staticmethod
    def _opvals(I):
        r = list(I.ops)
        if I.op == "gep":
            r += [v for v, _ in I.x[1]]
        if I.op == "call" and I.name is not None:
            r.append(I.name)
        return r

    # ---- evaluation of operands
    def ev(self, st, v):
        k = v.kind
        if k == "c":
            return ("c", v.v)
        if k == "i":
            r = st.env.get(v.v.id)
            if r is None:
                r = ("s", ("i", v.v.id), 0)
            return r
        if k == "a":
            return ("s", ("a", v.v), 0)
        if k == "g":
            return ("s", ("g", v.v), 0)
        if k == "f":
            return ("s", ("f", v.v), 0)
        if k == "ge":
            b = self.ev(st, v.v[0])
            return ("s", b[1], b[2] + v.v[1]) if b[0] == "s" else b
        return ("s", ("u", v.uid), 0)

    def nonnull(self, st, v):
        if v[0] == "c":
            return v[1] != 0
        if v[0] == "s":
            if v[1][0] in ADDR or v[1][0] == "ix":
                return True
            if (v[1], -v[2]) in st.ne or (v[2] != 0 and (v[1], 0) in st.ne):
                return True
            return st.lo(v) > 0 or st.hi(v) < 0
        return False

    def isnull(self, st, v):
        if v[0] == "c":
            return v[1] == 0
        if v[0] == "s":
            return st.lo(v) == 0 and st.hi(v) == 0
        return False

    def const(self, st, v):
        """constant value if known"""
        if v[0] == "c":
            return v[1]
        if v[0] == "s":
            l, h = st.lo(v), st.hi(v)
            return l if l == h else None
        t = self.truth(st, v)
        return None if t is None else int(t)

    # ---- conditions
    def truth(self, st, v):
        k = v[0]
        if k == "c":
            return v[1] != 0
        if k == "not":
            t = self.truth(st, v[1])
            return None if t is None else not t
        if k == "and":
            a, b = self.truth(st, v[1]), self.truth(st, v[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if k == "or":
            a, b = self.truth(st, v[1]), self.truth(st, v[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        if k == "s":
            if self.nonnull(st, v):
                return True
            return False if self.isnull(st, v) else None
        _, p, a, b = v[:4]
        return self.decide(st, p, a, b, v[4] if len(v) > 4 else 64)

    @staticmethod
    def unsub(a, b):
        """(x - y) + k ? c  as  x ? y + (c - k), for exact differences"""
        if b[0] == "c" and a[0] == "s" and a[1][0] == "op" and a[1][1] == "sub" and len(a[1]) == 4:
            x, y = a[1][2], a[1][3]
            c = b[1] - a[2]
            if y[0] == "s":
                return x, ("s", y[1], y[2] + c)
        return None

    def decide(self, st, p, a, b, w=64):
        r = self.decide1(st, p, a, b, w)
        if r is None and p[0] != "u":
            u = self.unsub(a, b)
            if u:
                r = self.decide1(st, p, u[0], u[1], w)
            else:
                u = self.unsub(b, a)
                if u:
                    r = self.decide1(st, SWAP[p], u[0], u[1], w)
        return r

    def decide1(self, st, p, a, b, w=64):
        if p in ("eq", "ne"):
            r = None
            if a == b:
                r = True
            elif st.diff_ub(a, b) < 0 or st.diff_ub(b, a) < 0:
                r = False
            elif st.diff_ub(a, b) == 0 and st.diff_ub(b, a) == 0:
                r = True
            else:
                for x, y in ((a, b), (b, a)):
                    if y[0] == "c" and x[0] == "s":
                        if (x[1], y[1] - x[2]) in st.ne or (y[1] == 0 and self.nonnull(st, x)):
                            r = False
                if r is None and a[0] == b[0] == "s" and a[1][0] in ADDR and b[1][0] in ADDR and a[1] != b[1]:
                    r = False
            if r is None:
                return None
            return r if p == "eq" else not r
        if p[0] == "u":
            la, lb = st.lo(a), st.lo(b)
            if la >= 0 and lb >= 0:
                p = "s" + p[1:]
            else:
                return None
        if p == "slt":
            if st.diff_ub(a, b) < 0:
                return True
            if st.diff_ub(b, a) <= 0:
                return False
            return None
        if p == "sle":
            if st.diff_ub(a, b) <= 0:
                return True
            if st.diff_ub(b, a) < 0:
                return False
            return None
        if p == "sgt":
            return self.decide(st, "slt", b, a)
        return self.decide(st, "sle", b, a)

    def assume(self, st, v, t):
        """states (copies of st) in which v has truth t"""
        k = v[0]
        r = self.truth(st, v)
        if r is not None:
            return [st] if r == t else []
        if k == "not":
            return self.assume(st, v[1], not t)
        if k in ("and", "or"):
            if (k == "and") == t:
                out = []
                for s in self.assume(st.copy(), v[1], t):
                    out += self.assume(s, v[2], t)
                return out
            out = self.assume(st.copy(), v[1], t)
            for s in self.assume(st.copy(), v[1], not t):
                out += self.assume(s, v[2], t)
            return out
        if k == "s":
            return self.assume(st, ("cmp", "ne", v, ("c", 0), 64), t)
        p, a, b = v[1], v[2], v[3]
        w = v[4] if len(v) > 4 else 64
        if not t:
            p = NEG[p]
        n = st.copy()
        return [n] if self._assume(n, p, a, b, w) else []

    def _sk(self, v):
        if v[0] == "c":
            return Z, v[1]
        if v[0] == "s":
            return v[1], v[2]
        return None, 0

    def _assume(self, n, p, a, b, w):
        if p[0] != "u":
            for x, y, pp in ((a, b, p), (b, a, SWAP[p])):
                u = self.unsub(x, y)
                if u and not self._assume1(n, pp, u[0], u[1], w):
                    return False
        return self._assume1(n, p, a, b, w)

    def _assume1(self, n, p, a, b, w):
        for x, y, pp in ((a, b, p), (b, a, SWAP[p])):
            # comparison of a boolean term with a constant
            if x[0] in ("cmp", "and", "or", "not") and y[0] == "c" and pp in ("eq", "ne"):
                want = (y[1] != 0) == (pp == "eq")
                r = self.assume(n, x, want)
                if not r:
                    return False
                if len(r) == 1:
                    n.env, n.mem, n.D, n.ne, n.own = r[0].env, r[0].mem, r[0].D, r[0].ne, False
                return True
        sa, ka = self._sk(a)
        sb, kb = self._sk(b)
        if sa is None or sb is None:
            return True
        if p == "eq":
            ok = n.add(sa, sb, kb - ka) and n.add(sb, sa, ka - kb)
            if ok:
                self._eqprop(n, a, b)
            return ok
        if p == "ne":
            if sb == Z and sa != Z:
                c = kb - ka
                s = sa
            elif sa == Z and sb != Z:
                c = ka - kb
                s = sb
            else:
                if sa != Z and sb != Z:
                    if n.diff_ub(a, b) == 0:
                        return n.add(sa, sb, kb - ka - 1)
                    if n.diff_ub(b, a) == 0:
                        return n.add(sb, sa, ka - kb - 1)
                return True
            n.ne = n.ne | {(s, c)}
            ch = True
            while ch:
                ch = False
                h, l = n.ub(s, Z), -n.ub(Z, s)
                if (s, h) in n.ne and h < INF:
                    if not n.add(s, Z, h - 1):
                        return False
                    ch = True
                elif (s, l) in n.ne and l > -INF:
                    if not n.add(Z, s, -l - 1):
                        return False
                    ch = True
            return True
        if p[0] == "u":
            # x <u y with y known non-negative: 0 <= x < y
            if p in ("ugt", "uge"):
                a, b, p = b, a, SWAP[p]
                sa, ka, sb, kb = sb, kb, sa, ka
            # a <(=) b unsigned
            if n.lo(b) >= 0:
                if sa != Z:
                    if not n.add(Z, sa, ka):     # a >= 0
                        return False
                p = "s" + p[1:]
            elif n.lo(a) >= 0 and sa == Z:
                # constant <(=)u b, b of unknown sign: only b != small
                if p == "ult" and ka == 0:
                    return self._assume(n, "ne", b, ("c", 0), w)
                return True
            else:
                return True
        if p in ("sgt", "sge"):
            sa, ka, sb, kb = sb, kb, sa, ka
            p = SWAP[p]
        d = kb - ka - (1 if p == "slt" else 0)
        return n.add(sa, sb, d) and self._trim(n, sa) and self._trim(n, sb)

    def _trim(self, n, s):
        if s == Z or not n.ne:
            return True
        while True:
            h, l = n.ub(s, Z), -n.ub(Z, s)
            if h < INF and (s, h) in n.ne:
                if not n.add(s, Z, h - 1):
                    return False
            elif l > -INF and (s, l) in n.ne:
                if not n.add(Z, s, -l - 1):
                    return False
            else:
                return True

    def _eqprop(self, n, a, b):
        pass

    # ---- symbols
    def redefine(self, st, sym):
        """sym is about to denote a new value: rename what still holds the old one"""
        used = False
        for v in st.env.values():
            for s in vsyms(v):
                if sym == s or sym in leaves(s):
                    used = True
        for k, v in st.mem.items():
            if sym == k[0] or sym in leaves(k[0]):
                used = True
            for s in vsyms(v[0]):
                if sym == s or sym in leaves(s):
                    used = True
        pu = self.spec.prop_syms(st.prop)
        if not used and not any(sym == s or sym in leaves(s) for s in pu):
            # facts of the old value (and of terms built from it) die
            dead = [s for s in set(st.D) | {b for r in st.D.values() for b in r} | {x[0] for x in st.ne}
                    if s == sym or (isinstance(s, tuple) and sym in leaves(s))]
            for s in dead:
                st.forget(s)
            return
        old = ("o", sym)
        # drop what holds the value before the previous one
        def has(s, t):
            return s == t or (isinstance(s, tuple) and any(has(x, t) for x in s))
        # values computed from it keep their bounds under an opaque name
        hm = {}
        for i, v in st.env.items():
            if v[0] == "s" and v[1] not in hm and has(v[1], old):
                hm[v[1]] = i
        if hm:
            inuse = st.symbols() | set(st.D)
            for t, i in list(hm.items()):
                for n in range(4):
                    nm = ("h", i, n)
                    if nm not in hm.values() and not any(has(x, nm) for x in inuse):
                        hm[t] = nm
                        break
                else:
                    del hm[t]
        if hm:
            st.env = {i: subst(v, hm) for i, v in st.env.items()}
            st.mem = {k: (subst(v[0], hm),) + v[1:] for k, v in st.mem.items()}
            st.D = {hm.get(a, a): {hm.get(b, b): c for b, c in r.items()} for a, r in st.D.items()}
            st.own = True
            st.ne = frozenset((hm.get(x, x), c) for x, c in st.ne)
        for i in [i for i, v in st.env.items() if has(v, old)]:
            del st.env[i]
        for k in [k for k, v in st.mem.items() if has(k, old) or has(v, old)]:
            del st.mem[k]
        for s in [s for s in set(st.D) | {b for r in st.D.values() for b in r} | {x[0] for x in st.ne} if has(s, old)]:
            st.forget(s)
        if any(has(s, old) for s in pu):
            st.prop = self.spec.prop_drop(st.prop, old)
        m = {sym: old}
        st.env = {i: subst(v, m) for i, v in st.env.items()}
        st.mem = {subst(k, m): subst(v, m) for k, v in st.mem.items()}
        st.D = {subst(a, m) if a != Z else a: {(subst(b, m) if b != Z else b): c for b, c in r.items()}
                for a, r in st.D.items()}
        st.own = True
        st.ne = frozenset((subst(s, m), c) for s, c in st.ne)
        if pu:
            st.prop = self.spec.prop_rename(st.prop, m)

    def fresh(self, st, I, tag=None):
        sym = ("i", I.id) if tag is None else ("i", I.id, tag)
        self.redefine(st, sym)
        return ("s", sym, 0)

    def rng(self, st, v, lo, hi):
        """assume lo <= v <= hi"""
        if v[0] == "s":
            if lo is not None:
                st.add(Z, v[1], v[2] - lo)
            if hi is not None:
                st.add(v[1], Z, hi - v[2])
        return v

    # ---- memory
    def pclass(self, ptr):
        """static access class of a pointer operand"""
        if ptr.kind == "i":
            i = ptr.v
            if i.op == "gep":
                if i.x[2]:
                    return i.x[2]
                return None
            if i.op == "alloca":
                return ("al", i.id)
            return None
        if ptr.kind == "g":
            return ("g", ptr.v)
        if ptr.kind == "ge":
            if ptr.v[2]:
                return ptr.v[2]
            b = ptr.v[0]
            return ("g", b.v) if b.kind == "g" else None
        return None

    @staticmethod
    def root(sym):
        while sym[0] == "ix":
            sym = sym[1]
        return sym

    def mayalias(self, k1, c1, n1, k2, c2, n2):
        s1, o1 = k1
        s2, o2 = k2
        if s1 == s2:
            return o1 < o2 + n2 and o2 < o1 + n1
        r1, r2 = self.root(s1), self.root(s2)
        if r1 == r2:
            if c1 and c2 and c1 != c2:
                return False
            return True
        a1, a2 = r1[0] in ADDR, r2[0] in ADDR
        if a1 and a2:
            return False
        if a1 and r1[0] == "g" and r2[0] == "i" and r2[1] in self.heap or a2 and r2[0] == "g" and r1[0] == "i" and r1[1] in self.heap:
            return False            # a block of the heap is no global variable
        if a1 and r1[0] == "al" and r1[1] not in self.addr_stored:
            return False
        if a2 and r2[0] == "al" and r2[1] not in self.addr_stored:
            return False
        if c1 and c2:
            if c1[0] in ("al",) or c2[0] in ("al",):
                return n1 == n2 and (c1[0] != c2[0])
            return c1 == c2
        return n1 == n2

    def store(self, st, addr, val, size, cls):
        if addr[0] != "s":
            return
        k = (addr[1], addr[2])
        for k2 in [k2 for k2, (v2, n2, c2) in st.mem.items()
                   if k2 != k and self.mayalias(k, cls, size, k2, c2, n2)]:
            del st.mem[k2]
        st.mem[k] = (val, size, cls)

    def load(self, st, I, addr, size, cls):
        if addr[0] == "s":
            k = (addr[1], addr[2])
            r = st.mem.get(k)
            if r is not None and r[1] == size:
                return r[0]
            v = self.spec.load_value(self, st, I, addr, size, cls)
            if v is None:
                v = self.fresh(st, I)
            if isinstance(I.w, int) and I.w < 64 and v[0] == "s":
                pass
            st.mem[k] = (v, size, cls)
            return v
        return self.fresh(st, I)

    def peek(self, st, addr, size=None):
        r = st.mem.get((addr[1], addr[2])) if addr[0] == "s" else None
        return r[0] if r else None

    def havoc(self, st, args, classes):
        """a call may write: objects passed by address, and the classes given
        (None = everything that is not a private local)"""
        roots = set()
        for a in args:
            if a[0] == "s":
                roots.add(self.root(a[1]))
        dead = []
        for k, (v, n, c) in st.mem.items():
            r = self.root(k[0])
            if r in roots and (r[0] == "al" or classes is None or c is None or c in classes or (("*", n) in classes and (not c or c[0] in ("g", "al")))):
                dead.append(k)
                continue
            if r[0] == "al":
                if r[1] in self.addr_stored and (classes is None or ("*", n) in classes):
                    dead.append(k)
                continue
            if classes is None:
                dead.append(k)
            elif c is None:
                if ("*", n) in classes:
                    dead.append(k)
            elif c in classes:
                dead.append(k)
        for k in dead:
            del st.mem[k]

    def default_call(self, st, I, name, args):
        if name in PUREISH and not (self.mods and name in self.mods):
            pass
        elif name and name.startswith("llvm."):
            if name.startswith("llvm.mem"):
                self.havoc(st, args[:1], set())
                r = self.root(args[0][1]) if args[0][0] == "s" else None
                for k in [k for k in st.mem if self.root(k[0]) == r]:
                    del st.mem[k]
        else:
            cl = None
            if name is not None and self.mods is not None:
                cl = self.mods.get(name)
                if cl is not None and "ALL" in cl:
                    cl = None
            if name is None and self.mods is not None:
                cl = self.mods.get("!ind", {}).get(len(args), set())
            if name is not None and cl is None and self.mods is not None and name not in self.mods:
                # an external library function: only what it is handed
                cl = set()
                if name in EXTWRITES:
                    args = [args[i] for i in EXTWRITES[name] if i < len(args)]
                rs = {self.root(a[1]) for a in args if a[0] == "s"}
                for k in [k for k in st.mem if self.root(k[0]) in rs]:
                    del st.mem[k]
            self.havoc(st, args, cl)
        if I.w == 0:
            return ("c", 0)
        return self.fresh(st, I)

    # ---- run
    def report(self, st, I, msg, key=None):
        k = key or (I.file, I.line, msg)
        if k not in self.findings:
            self.findings[k] = {"function": self.f.name, "file": I.file, "line": I.line, "msg": msg,
                                "path": self.path(st, I)}

    def path(self, st, I):
        out, t = [], st.trace
        while t:
            out.append(t[1])
            t = t[0]
        out.reverse()
        r = []
        for x in out:
            if not r or r[-1] != x:
                r.append(x)
        r.append("%s:%d" % (I.file, I.line))
        return r[-40:]

    def run(self):
        f, spec = self.f, self.spec
        St.keepix = bool(self.keepix)
        st = St()
        st.prop = spec.init(self, st)
        self.seen = {}
        self.wide = {}
        self.queue = []
        self.cnt = 0
        self.enter(st, f.blocks[0], None)
        while self.queue:
            _, _, s, b, w = heapq.heappop(self.queue)
            if w is not None and self.wide.get(w) is not s:
                continue  # superseded by a wider state
            self.steps += len(b.ins)
            if self.steps > self.max_steps:
                self.truncated = True
                break
            self.visited_blocks.add(b.id)
            self.exec_block(s.copy(), b)
        return self

    def push(self, st, b, w):
        self.cnt += 1
        heapq.heappush(self.queue, (self.rpo[b.id], self.cnt, st, b, w))

    def enter(self, st, b, frm):
        # phis
        if b.ins and b.ins[0].op == "phi":
            new = []
            for I in b.ins:
                if I.op != "phi":
                    break
                for v, p in I.ops:
                    if p is frm:
                        new.append((I, self.ev(st, v)))
                        break
            for I, v in new:
                st.env[I.id] = v
            keep = {I.id for I, _ in new}
        else:
            keep = set()
        lv = self.live[b.id]
        st.env = {i: v for i, v in st.env.items() if i in lv or i in keep}
        ps = self.spec.prop_syms(st.prop)
        st.gc(ps)
        self.spec.at_block(self, st, b)
        pk = (b.id, self.spec.state_key(self, st, b))
        k = (st.key(), st.prop)
        seen = self.seen.setdefault(pk, {})
        if k in seen:
            return
        lim = self.spec.head_limit(self, st, self.KL) if b.id in self.heads else self.K
        if len(seen) < lim:
            seen[k] = 1
            self.push(st, b, None)
            return
        W = self.wide.get(pk)
        if W is None:
            seen[k] = 1
            self.wide[pk] = st
            self.push(st, b, pk)
            return
        J = self.join(W, st, b)
        if (J.key(), J.prop) == (W.key(), W.prop):
            return
        self.joins += 1
        self.wide[pk] = J
        self.push(J, b, pk)

    def join(self, A, B, b):
        """widening join of the wide state A with B"""
        J = St()
        J.prop = self.spec.prop_join(A.prop, B.prop)
        J.trace = B.trace
        pair = {}
        used = set()
        for v in list(A.env.values()) + [x[0] for x in A.mem.values()]:
            pass

        def jv(v1, v2, key):
            if v1 == v2:
                return v1
            if v1[0] not in ("c", "s") or v2[0] not in ("c", "s"):
                return None
            if self.keepix and v1[0] == "s" and v2[0] == "s" and v1[2] == v2[2] and v1[1][0] == "ix" and v2[1][0] == "ix" and v1[1][1:3] == v2[1][1:3]:
                # the same element type of the same array: an element at a joined index
                (a, x), (b_, y) = (len(v1[1][3]), v1[1][3][0]), (len(v2[1][3]), v2[1][3][0])
                if a == b_ == 1 and x[1] == y[1] and x[1] in self.keepix:
                    q = jv(x[0], y[0], (key, "ix"))
                    if q is not None and q[0] == "P":
                        return ("Q", q[1], v1[1][1], v1[1][2], x[1], v1[2])
            if self.joinptr and v1[0] == "s" and v2[0] == "s":
                # two places in one object: a place in that object
                (r1, i1), (r2, i2) = place(v1), place(v2)
                if r1 is not None and r1 == r2:
                    q = jv(i1, i2, (key, "ix"))
                    if q is not None and q[0] == "P":
                        return ("Q", q[1], r1, 0, 1, 0)
            if self.deepjoin and v1[0] == "s" and v2[0] == "s" and v1[2] == v2[2] and v1[1][0] == v2[1][0] and v1[1][0] in self.deepjoin:
                n = deep(v1[1], v2[1], key)
                if n is not None:
                    return ("N", n, v1, v2)
            p = (v1, v2)
            if p not in pair:
                pair[p] = key
            return ("P", p)

        def place(v):
            b = v[1]
            if b[0] in ADDR:
                return b, ("c", v[2])
            if b[0] == "ix" and b[1][0] in ADDR and len(b[3]) == 1 and b[3][0][1] == 1 and b[3][0][0][0] == "s":
                x = b[3][0][0]
                return b[1], ("s", x[1], x[2] + b[2] + v[2])
            return None, None

        def deep(x, y, key):
            """the same expression of joined operands"""
            if x == y:
                return x
            if not isinstance(x, tuple) or not isinstance(y, tuple) or not x or not y:
                return None
            if x[0] in ("s", "c") and y[0] in ("s", "c"):
                return jv(x, y, key)
            if len(x) != len(y):
                return None
            r = []
            for i, (a, b_) in enumerate(zip(x, y)):
                d = deep(a, b_, (key, i))
                if d is None and a is not None:
                    return None
                r.append(d)
            return tuple(r)

        def values(v):
            """the values an unresolved value is made of"""
            if v[0] == "N":
                return [y for x in v[1] if isinstance(x, tuple) for y in values(x)]
            if v and v[0] in ("s", "c", "P", "Q"):
                return [v]
            return [y for x in v if isinstance(x, tuple) for y in values(x)]
        env = {}
        for i in A.env:
            if i in B.env:
                r = jv(A.env[i], B.env[i], ("e", i))
                if r is not None:
                    env[i] = r
        mem = {}
        for k in A.mem:
            if k in B.mem and A.mem[k][1:] == B.mem[k][1:]:
                r = jv(A.mem[k][0], B.mem[k][0], ("m", k))
                if r is not None:
                    mem[k] = (r,) + A.mem[k][1:]
        # symbols common to both sides (kept unchanged)
        common = set()

        def kept(v):
            if v[0] == "Q":
                common.add(v[2])
            elif v[0] == "N":
                for x in values(v):
                    kept(x)
            elif v[0] != "P":
                common.update(vsyms(v))
        for v in env.values():
            kept(v)
        for k, v in mem.items():
            common.add(k[0])
            kept(v[0])
        if self.keepix:
            for v in list(env.values()) + [x[0] for x in mem.values()]:
                if v[0] == "s" and v[1][0] == "ix":
                    common.update(x[0][1] for x in v[1][3] if x[0][0] == "s")
        ps = self.spec.prop_syms(J.prop)
        common.update(ps)
        names = {}
        for p, key in pair.items():
            n = 0
            while True:
                nm = ("j", b.id, key, n)
                if nm not in common and not any(nm in leaves(c) for c in common if isinstance(c, tuple)) and nm not in names.values():
                    break
                n += 1
            names[p] = nm
        def res(v):
            if v[0] == "P":
                return ("s", names[v[1]], 0)
            if v[0] == "Q":
                return ("s", ("ix", v[2], v[3], ((("s", names[v[1]], 0), v[4]),)), v[5])
            if v[0] == "N":
                n = ("s", resin(v[1]), v[2][2])
                exprs[n[1]] = (v[2], v[3])
                return n
            return v

        def resin(x):
            if not isinstance(x, tuple) or not x:
                return x
            if x[0] in ("P", "Q", "N"):
                return res(x)
            return tuple(resin(y) for y in x)
        exprs = {}
        J.env = {i: res(v) for i, v in env.items()}
        J.mem = {k: (res(v[0]),) + v[1:] for k, v in mem.items()}
        terms = [(c, ("s", c, 0), ("s", c, 0)) for c in common] + [(names[p], p[0], p[1]) for p in pair]
        terms.append((Z, ("c", 0), ("c", 0)))
        terms += [(n, (a[0], a[1], 0), (b_[0], b_[1], 0)) for n, (a, b_) in exprs.items() if n not in common]
        D = {}
        base = lambda v: (v[1], v[2]) if v[0] == "s" else (Z, v[1] if v[0] == "c" else 1)
        T = [(n,) + base(a) + base(b) for n, a, b in terms]
        none = {}
        for n1, sa1, ka1, sb1, kb1 in T:
            r = {}
            ra, rb = A.D.get(sa1, none), B.D.get(sb1, none)
            for n2, sa2, ka2, sb2, kb2 in T:
                if n1 is n2:
                    continue
                ca = ra.get(sa2)
                if ca is None:
                    if sa1 != sa2:
                        continue
                    ca = 0
                cb = rb.get(sb2)
                if cb is None:
                    if sb1 != sb2:
                        continue
                    cb = 0
                ca += ka1 - ka2
                cb += kb1 - kb2
                if ca >= INF // 2 or cb >= INF // 2:
                    continue
                if cb <= ca:
                    r[n2] = ca          # widening: keep only what the wide state already had
                elif n2 == Z and n1 != Z:
                    # thresholds, so that small value sets survive
                    for t in self.thresholds if b.id not in self.heads else self.head_thresholds or self.thresholds:
                        if cb <= t:
                            r[n2] = t
                            break
                elif n1 == Z:
                    for t in (-1, 0, 1):
                        if cb <= t:
                            r[n2] = t
                            break
                elif self.pairs:
                    for t in self.pairs:
                        if cb <= t:
                            r[n2] = t
                            break
            if r:
                D[n1] = r
        J.D, J.own = D, True
        ne = set()
        for s, c in A.ne:
            if s in common and ((s, c) in B.ne or B.hi(("s", s, 0)) < c or B.lo(("s", s, 0)) > c):
                ne.add((s, c))
        for p, nm in names.items():
            if self.nonnull(A, p[0]) and self.nonnull(B, p[1]):
                ne.add((nm, 0))
        J.ne = frozenset(ne)
        return J

    def exec_block(self, st, b):
        states = [st]
        for I in b.ins:
            if I.op == "phi":
                continue
            nxt = []
            for s in states:
                nxt += self.step(s, I)
            states = nxt
            if not states:
                return
            if len(states) > 4 * self.K:
                # keep the number of states in a block bounded
                uniq = {}
                for s in states:
                    uniq.setdefault((s.key(), s.prop), s)
                states = list(uniq.values())

    def goto(self, st, I, tgt):
        st.trace = (st.trace, "%s:%d" % (I.file, I.line))
        self.enter(st, tgt, I.blk)

    def deref(self, st, a):
        """an object that was accessed is not NULL on the rest of the path"""
        if a[0] == "s" and a[1][0] not in ADDR and a[1][0] != "ix" and (a[1], 0) not in st.ne:
            st.ne = st.ne | {(a[1], 0)}
            if st.ub(Z, a[1]) == 0:
                st.add(Z, a[1], -1)

    def step(self, st, I):
        op = I.op
        if op == "alloca":
            st.env[I.id] = ("s", ("al", I.id), 0)
            return [st]
        if op == "load":
            a = self.ev(st, I.ops[0])
            cls = self.pclass(I.ops[0])
            r = self.spec.on_load(self, st, I, a, cls)
            if r is False:
                return []
            for s in r if isinstance(r, list) else [st]:
                self.deref(s, a)
                s.env[I.id] = self.load(s, I, a, I.x, cls)
            return r if isinstance(r, list) else [st]
        if op == "store":
            v, a = self.ev(st, I.ops[0]), self.ev(st, I.ops[1])
            cls = self.pclass(I.ops[1])
            r = self.spec.on_store(self, st, I, a, v, cls)
            if r is False:
                return []
            for s in r if isinstance(r, list) else [st]:
                self.deref(s, a)
                self.store(s, a, v, I.x, cls)
            return r if isinstance(r, list) else [st]
        if op == "gep":
            b = self.ev(st, I.ops[0])
            off, vi, fld = I.x
            extra = 0
            var = []
            for v, sc in vi:
                x = self.ev(st, v)
                c = self.const(st, x)
                if c is not None and sc in self.keepix:
                    var.append((("c", c), sc))
                elif c is not None:
                    extra += c * sc
                else:
                    var.append((x, sc))
            if b[0] != "s":
                st.env[I.id] = b if b[0] == "c" else self.fresh(st, I)
            elif var:
                r = self.spec.on_index(self, st, I, b, var)
                if r is not None:
                    for s in r:
                        s.env[I.id] = ("s", ("ix", b[1], b[2] + off + extra, tuple(var)), 0)
                    return r
                st.env[I.id] = ("s", ("ix", b[1], b[2] + off + extra, tuple(var)), 0)
            else:
                st.env[I.id] = ("s", b[1], b[2] + off + extra)
            return [st]
        if op == "icmp":
            a, c = self.ev(st, I.ops[0]), self.ev(st, I.ops[1])
            st.env[I.id] = self.mkcmp(I.x, a, c)
            return [st]
        if op == "br":
            if not I.ops:
                self.goto(st, I, I.x[0])
                return []
            v = self.ev(st, I.ops[0])
            for t, tgt in ((True, I.x[0]), (False, I.x[1])):
                for s in self.assume(st.copy(), v, t):
                    if self.spec.on_branch(self, s, I, v, t) is False:
                        continue
                    self.goto(s, I, tgt)
            return []
        if op == "switch":
            v = self.ev(st, I.ops[0])
            d, cases = I.x
            rest = [st.copy()]
            for c, tgt in cases:
                for s in self.assume(st.copy(), ("cmp", "eq", v, ("c", c), 64), True):
                    self.goto(s, I, tgt)
                rest = [y for x in rest for y in self.assume(x, ("cmp", "eq", v, ("c", c), 64), False)]
            for s in rest:
                self.goto(s, I, d)
            return []
        if op == "call":
            return self.call(st, I)
        if op == "copy":
            st.env[I.id] = self.ev(st, I.ops[0])
            return [st]
        if op == "undefval":
            st.env[I.id] = self.fresh(st, I)
            return [st]
        if op == "ret":
            v = self.ev(st, I.ops[0]) if I.ops else None
            self.spec.on_ret(self, st, I, v)
            return []
        if op == "unreachable":
            return []
        if op == "select":
            c = self.ev(st, I.ops[0])
            out = []
            for t in (True, False):
                for s in self.assume(st.copy(), c, t):
                    self.spec.on_select(self, s, I, c, t)
                    s.env[I.id] = self.ev(s, I.ops[1 if t else 2])
                    out.append(s)
            return out
        v = self.arith(st, I)
        st.env[I.id] = self.spec.on_arith(self, st, I, v) or v
        return [st]

    def mkcmp(self, p, a, b):
        for x, y, pp in ((a, b, p), (b, a, SWAP[p])):
            if x[0] in ("cmp", "and", "or", "not") and y[0] == "c" and pp in ("eq", "ne"):
                if y[1] in (0, 1, -1):
                    pos = (y[1] != 0) == (pp == "eq")
                    return x if pos else self.neg(x)
        return ("cmp", p, a, b, 64)

    def neg(self, v):
        if v[0] == "not":
            return v[1]
        if v[0] == "cmp":
            return ("cmp", NEG[v[1]]) + v[2:]
        if v[0] == "c":
            return ("c", 0 if v[1] else 1)
        return ("not", v)

    def num(self, st, v):
        return v

    def arith(self, st, I):
        op = I.op
        a = self.ev(st, I.ops[0])
        B = ("cmp", "and", "or", "not")
        if op == "zext":
            w = I.ops[0].v.w if I.ops[0].kind == "i" else (I.ops[0].w or 32)
            if I.ops[0].kind == "a":
                w = 32
            if a[0] in B:
                return a
            if a[0] == "c":
                return ("c", a[1] & ((1 << w) - 1)) if w < 64 else a
            if st.lo(a) >= 0:
                return a
            r = ("s", ("op", "zext", a, w), 0)
            self.rng(st, r, 0, (1 << w) - 1 if w < 64 else None)
            return r
        if op == "sext":
            if a[0] in B:
                return a
            return a
        if op == "trunc":
            w = I.w
            if a[0] in B:
                return a
            if a[0] == "c":
                x = a[1] & ((1 << w) - 1)
                return ("c", x - (1 << w) if x >> (w - 1) and w > 1 else x)
            lo, hi = st.lo(a), st.hi(a)
            if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
                return a
            if w == 1:
                return ("cmp", "ne", ("s", ("op", "and", a, ("c", 1)), 0), ("c", 0), 64)
            if a[0] == "s" and a[1][0] == "op" and a[1][1] == "zext" and a[2] == 0 and a[1][3] == w:
                return a[1][2]
            r = ("s", ("op", "trunc", a, w), 0)
            self.rng(st, r, -(1 << (w - 1)), (1 << (w - 1)) - 1)
            return r
        if op in ("bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            return a
        if len(I.ops) < 2:
            return self.fresh(st, I)
        b = self.ev(st, I.ops[1])
        if op in ("and", "or", "xor") and I.w == 1:
            if op == "xor":
                if b[0] == "c":
                    return self.neg(a) if b[1] else a
                if a[0] == "c":
                    return self.neg(b) if a[1] else b
            else:
                for x, y in ((a, b), (b, a)):
                    if x[0] == "c":
                        if op == "and":
                            return y if x[1] else ("c", 0)
                        return ("c", 1) if x[1] else y
                return (op, a, b)
        if a[0] in B:
            a = self._b2n(st, a)
        if b[0] in B:
            b = self._b2n(st, b)
        w = I.w if isinstance(I.w, int) else 64
        wrap = lambda x: ((x + (1 << (w - 1))) & ((1 << w) - 1)) - (1 << (w - 1)) if w else x
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            ux, uy = x & ((1 << w) - 1), y & ((1 << w) - 1)
            try:
                r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y,
                     "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
                     "shl": lambda: x << y, "lshr": lambda: ux >> uy, "ashr": lambda: x >> y,
                     "udiv": lambda: ux // uy, "urem": lambda: ux % uy,
                     "sdiv": lambda: int(x / y), "srem": lambda: x - y * int(x / y)}[op]()
                return ("c", wrap(r))
            except (KeyError, ZeroDivisionError, ValueError, OverflowError):
                return self.fresh(st, I)
        la, ha, lb, hb = st.lo(a), st.hi(a), st.lo(b), st.hi(b)
        if op in ("add", "sub"):
            nsw = I.x and I.x[0]
            if op == "sub":
                nlb, nhb = -hb, -lb
            else:
                nlb, nhb = lb, hb
            smin, smax = -(1 << (w - 1)), (1 << (w - 1)) - 1
            cl = lambda x: max(smin, min(smax, x))
            rl = cl(la) + (-cl(hb) if op == "sub" else cl(lb))
            rh = cl(ha) + (-cl(lb) if op == "sub" else cl(hb))
            # a tighter bound when the operands are related
            if op == "sub":
                rh = min(rh, st.diff_ub(a, b))
                rl = max(rl, -st.diff_ub(b, a)) if st.diff_ub(b, a) < INF else rl
            fits = rl >= smin and rh <= smax
            exact = fits or (nsw and not self.strict_nsw) or w == 64 and not nsw and (
                op == "add" and la >= 0 and lb >= 0)
            if w == 64 and a[0] == "s" and a[1][0] in ADDR + ("ix",):
                exact = True
            if exact:
                if b[0] == "c" and a[0] == "s":
                    return ("s", a[1], a[2] + (b[1] if op == "add" else -b[1]))
                if op == "add" and a[0] == "c" and b[0] == "s":
                    return ("s", b[1], b[2] + a[1])
                if op == "sub" and a[0] == "s" and b[0] == "s" and a[1] == b[1]:
                    return ("c", a[2] - b[2])
                r = ("s", ("op", op, a, b), 0)
                if rl > -INF // 2:
                    st.add(Z, r[1], -rl)
                if rh < INF // 2:
                    st.add(r[1], Z, rh)
                # r - a <= hi(b), a - r <= -lo(b)
                if a[0] == "s":
                    if nhb < INF // 2:
                        st.add(r[1], a[1], a[2] + nhb)
                    if nlb > -INF // 2:
                        st.add(a[1], r[1], -a[2] - nlb)
                if op == "add" and b[0] == "s":
                    if ha < INF // 2:
                        st.add(r[1], b[1], b[2] + ha)
                    if la > -INF // 2:
                        st.add(b[1], r[1], -b[2] - la)
                if op == "add":
                    # y < x - a  gives  a + y < x
                    for x, y in ((a, b), (b, a)):
                        if y[0] == "s":
                            for t, c in list(st.D.get(y[1], {}).items()):
                                if isinstance(t, tuple) and t[:2] == ("op", "sub") and len(t) == 4 and t[3] == x and t[2][0] == "s":
                                    st.add(r[1], t[2][1], c + y[2] + t[2][2])
                return r
            r = ("s", ("op", op, a, b, w), 0)
            self.rng(st, r, smin if w < 64 else None, smax if w < 64 else None)
            return r
        r = ("s", ("op", op, a, b, w), 0)
        lo = hi = None
        if op == "and":
            if b[0] == "c" and b[1] >= 0:
                lo, hi = 0, b[1]
            elif a[0] == "c" and a[1] >= 0:
                lo, hi = 0, a[1]
            elif la >= 0 or lb >= 0:
                lo = 0
                hi = min(ha if la >= 0 else INF, hb if lb >= 0 else INF)
        elif op in ("or", "xor"):
            if la >= 0 and lb >= 0:
                lo = 0
                m = max(ha, hb)
                if m < INF // 2:
                    hi = (1 << m.bit_length()) - 1
        elif op == "mul":
            if max(abs(la), abs(lb)) < INF // 2 and max(ha, hb) < INF // 2:
                c = [la * lb, la * hb, ha * lb, ha * hb]
                if min(c) >= -(1 << (w - 1)) and max(c) < (1 << (w - 1)):
                    lo, hi = min(c), max(c)
            elif la >= 0 and lb >= 0 and (self.strict_nsw is False or w == 64):
                lo = 0
        elif op == "shl":
            if b[0] == "c" and la >= 0 and ha < INF // 2 and (ha << b[1]) < (1 << (w - 1)):
                lo, hi = la << b[1], ha << b[1]
        elif op in ("lshr",):
            if b[0] == "c" and b[1] > 0:
                lo = 0
                hi = (ha >> b[1]) if la >= 0 and ha < INF // 2 else ((1 << w) - 1) >> b[1]
        elif op == "ashr":
            if b[0] == "c" and ha < INF // 2 and la > -INF // 2:
                lo, hi = la >> b[1], ha >> b[1]
        elif op in ("udiv", "sdiv"):
            if b[0] == "c" and b[1] > 0 and la >= 0:
                lo = la // b[1]
                if ha < INF // 2:
                    hi = ha // b[1]
        elif op in ("urem", "srem"):
            if b[0] == "c" and b[1] > 0:
                hi = b[1] - 1
                lo = 0 if (op == "urem" or la >= 0) else -hi
                if la >= 0 and ha < hi:
                    hi = ha
            elif la >= 0 and lb >= 0:
                lo = 0
                if hb < INF // 2:
                    hi = hb - 1
        if w < 64:
            lo = -(1 << (w - 1)) if lo is None else lo
            hi = (1 << (w - 1)) - 1 if hi is None else hi
        self.rng(st, r, lo, hi if hi is None or hi < INF // 2 else None)
        return r

    def _b2n(self, st, v):
        t = self.truth(st, v)
        if t is not None:
            return ("c", int(t))
        r = ("s", ("op", "bool", v), 0)
        self.rng(st, r, 0, 1)
        return r

    def call(self, st, I):
        args = [self.ev(st, a) for a in I.ops]
        name = I.x
        if name is None and I.name is not None:
            t = self.ev(st, I.name)
            if t[0] == "s" and t[1][0] == "f":
                name = t[1][1]
        r = self.spec.on_call(self, st, I, name, args)
        if r is None:
            if self.mods is not None and name in self.mods.get("!condexit", ()):
                a = [s for s in self.assume(st.copy(), ("cmp", "ne", args[0], ("c", 0), 64), True)]
                for s in a:
                    self.spec.on_exit(self, s, I, name)
                b = self.assume(st.copy(), ("cmp", "ne", args[0], ("c", 0), 64), False)
                return b
            if name in NORETURN or (self.mods is not None and name in self.mods.get("!noret", ())):
                self.spec.on_exit(self, st, I, name)
                return []
            v = self.default_call(st, I, name, args)
            if v is not None and I.w != 0:
                st.env[I.id] = v
            return [st]
        out = []
        for s, v in r:
            if I.w != 0:
                s.env[I.id] = v if v is not None else self.fresh(s, I)
            out.append(s)
        return out


class Spec:
    """Property automaton: override what is needed."""

    def init(self, E, st):
        return None

    def prop_key(self, p):
        return p

    def prop_syms(self, p):
        return ()

    def prop_join(self, p, q):
        return p

    def prop_rename(self, p, m):
        return subst(p, m)

    def prop_drop(self, p, sym):
        return p

    def state_key(self, E, st, b):
        """states that differ in it are never joined"""
        return self.prop_key(st.prop)

    def head_limit(self, E, st, KL):
        """states kept apart at the head of a loop"""
        return KL

    def at_block(self, E, st, b):
        pass

    def on_call(self, E, st, I, name, args):
        return None

    def on_load(self, E, st, I, addr, cls):
        """False: not reachable; a list of states: the cases to tell apart before the load"""
        return None

    def load_value(self, E, st, I, addr, size, cls):
        return None

    def on_store(self, E, st, I, addr, val, cls):
        """False: not reachable; a list of states: the cases to tell apart before the store"""
        return None

    def on_index(self, E, st, I, base, var):
        pass

    def on_arith(self, E, st, I, v):
        """another value for the result of an operation, or None"""

    def on_branch(self, E, st, I, v, t):
        return None

    def on_select(self, E, st, I, v, t):
        pass

    def on_ret(self, E, st, I, val):
        pass

    def on_exit(self, E, st, I, name):
        pass


def mod_summaries(module):
    """function -> set of access classes it (transitively) may store to"""
    own, callees = {}, {}
    # a call through a pointer reaches the functions whose address is taken and that have as many
    # parameters (or code outside the program)
    taken = dict(module.address_taken())
    uses = {}
    for f in module.funcs():
        for I in f.instrs():
            for o in I.ops or ():
                if getattr(o, "kind", None) == "f" and o.v in taken:
                    uses.setdefault(o.v, set()).add(I.x if I.op == "call" else None)
    for n, u in uses.items():
        if u == {"atexit"}:
            taken.pop(n, None)          # called when the program ends, not by its pointers
    for f in module.funcs():
        s, c = set(), set()
        for I in f.instrs():
            if I.op == "store":
                cls = Engine.pclass(None, I.ops[1])
                if cls is None:
                    s.add(("*", I.x))
                elif cls[0] != "al":
                    s.add(cls)
                # memory written through an array element of a global
            elif I.op == "call":
                if I.x is None:
                    c |= {n for n, k in taken.items() if k == len(I.ops)}
                elif I.x.startswith("llvm.mem"):
                    pass
                else:
                    c.add(I.x)
        own[f.name], callees[f.name] = s, c
    ch = True
    while ch:
        ch = False
        for n in own:
            for c in callees[n]:
                if c in own and not own[c] <= own[n]:
                    own[n] |= own[c]
                    ch = True
    ind = {}
    for n, k in taken.items():
        ind.setdefault(k, set()).update(own.get(n, ()))
    own["!ind"] = ind
    own["!noret"], own["!condexit"] = exits(module)
    return own


def exits(module):
    """functions that never return, and functions that leave the program exactly when
    their first argument is non-zero (err-like)"""
    noret, cond = set(), set()

    def leaves_program(I):
        return I.op == "call" and (I.x in NORETURN or I.x in noret or
                                   I.x in cond and I.ops and I.ops[0].kind == "c" and I.ops[0].v != 0)
    ch = True
    while ch:
        ch = False
        for f in module.funcs():
            if f.name in noret or not f.blocks:
                continue
            todo, seen, ret = [f.blocks[0]], set(), False
            while todo and not ret:
                b = todo.pop()
                if b.id in seen:
                    continue
                seen.add(b.id)
                stop = False
                for I in b.ins:
                    if leaves_program(I):
                        stop = True
                        break
                    if I.op == "ret":
                        ret = True
                if not stop:
                    todo += b.succ
            if not ret:
                noret.add(f.name)
                ch = True
        for f in module.funcs():
            if f.name in noret or f.name in cond:
                continue
            for b in f.blocks:
                if any(I.op == "call" and (I.x in ("exit", "_exit") or I.x in noret) and I.ops and I.ops[0].kind == "a"
                       and I.ops[0].v == 0 for I in b.ins):
                    for p in f.blocks:
                        t = p.ins[-1]
                        if t.op == "br" and t.ops and b in t.x and t.ops[0].kind == "i":
                            c = t.ops[0].v
                            if c.op == "icmp" and c.ops[0].kind == "a" and c.ops[0].v == 0 and c.ops[1].kind == "c" \
                                    and c.ops[1].v == 0 and ((c.x == "ne" and t.x[0] is b) or (c.x == "eq" and t.x[1] is b)):
                                cond.add(f.name)
                                ch = True
    return noret, cond
