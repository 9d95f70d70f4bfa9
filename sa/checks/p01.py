"""P01 received names stay inside their directory"""
import bisect, re
import flow
from flow import Z
from util import *

EXPLANATION = ("Path-sensitive analysis of one received frame (broadcast) or packet (master), flattened. One received '/' is chosen as "
               "a witness: at the first time a received character is read, scanned or copied, the states are split into every position "
               "it can take. It is then followed through copies, formats, character classes and searches; a product that is still open "
               "at the end must not have it in its path.")
P = ("g", "the product")
ARR = ("g", "the table of products")
CT = {"__ctype_b_loc": (2, 0xC004), "__ctype_tolower_loc": (4, 47), "__ctype_toupper_loc": (4, 47)}
IS = ("isalnum", "isalpha", "isdigit", "isspace", "isupper", "islower", "isxdigit", "iscntrl", "isblank")
# destination, sources, size argument (None: all of the source)
COPY = {"strcpy": (0, (1,), None), "strncpy": (0, (1,), 2), "strcat": (0, (1,), None), "strncat": (0, (1,), None),
        "memcpy": (0, (1,), 2), "memmove": (0, (1,), 2), "stpcpy": (0, (1,), None), "strlcpy": (0, (1,), None),
        "snprintf": (0, "rest", None), "sprintf": (0, "rest", None)}
EXACT = {"strcpy", "strncpy", "memcpy", "memmove", "stpcpy", "strlcpy"}


def conversions(fmt, n, scan=True):
    """[(conversion, width)] of a format; character classes without '/' count as 'd'"""
    if fmt is None:
        return [("s", None)] * n
    specs, i = [], 0
    while i < len(fmt):
        if fmt[i] != "%":
            i += 1
            continue
        i += 1
        w, sup = "", False
        while i < len(fmt) and (fmt[i].isdigit() or fmt[i] in "*lhqjzt.-+ #"):
            if fmt[i].isdigit():
                w += fmt[i]
            elif fmt[i] == "*":
                sup = scan
                if not scan:
                    specs.append(("d", None))
            i += 1
        c = fmt[i:i + 1]
        if c == "[":
            j = fmt.find("]", i + 2)
            neg, cs = fmt[i + 1] == "^", fmt[i + 1:j]
            c = "s" if neg and "/" not in cs or not neg and "/" in cs else "d"
            i = j
        i += 1
        if c != "%" and not sup:
            specs.append((c, int(w) if w else None))
    return specs


class S(flow.Spec):
    """prop: (product open, witness): witness None = no '/' received yet, else where it is: {(root, lo, hi, position or None)}"""

    def __init__(self, chk, m, name, arg):
        self.chk, self.m, self.name = chk, m, name
        self.seq = off(m, "pctl_element_st", "seq_number")
        self.fp = off(m, "pctl_element_st", "fpath")
        self.act = ("pctl_st", off(m, "pctl_st", "activepce"))
        di = m.di()
        self.lay = {P: sorted(di.structs["pctl_element_st"]), ("a", 0): sorted(di.structs[arg])}
        self.text = {o for o, x in di.structs[arg].items() if self.chars(di, x[2])}
        self.safe, self.bytes, self.hot = set(), {}, set()
        self.splits, self.sinks = set(), set()

    @staticmethod
    def chars(di, t):
        """an array of characters"""
        arr = False
        for _ in range(8):
            n = di.nodes.get(t, "")
            arr |= "DW_TAG_array_type" in n
            if "DW_TAG_typedef" in n or "DW_TAG_array_type" in n or "DW_TAG_const" in n or "!DICompositeType" in n:
                x = re.search(r"baseType: (!\d+)", n)
                if not x:
                    return False
                t = x.group(1)
                continue
            return arr and "DIBasicType" in n and ", size: 8," in n
        return False

    def init(self, E, st):
        self.loops = self.nest(E)
        E.joinptr = True
        return (False, None, False)

    # ---- the witness
    def prop_syms(self, p):
        return [x[0] for x in p[1] or () if x[0][0] not in ("al", "g", "a")] + [x[5][1] for x in p[1] or () if x[5]]

    def prop_rename(self, p, m):
        return (p[0], frozenset((flow.subst(x[0], m),) + x[1:5] + (flow.subst(x[5], m) if x[5] else None,) for x in p[1]), p[2]) if p[1] else p

    def prop_drop(self, p, sym):
        return (p[0], frozenset(x[:5] + (None if x[5] and sym in flow.leaves(x[5]) else x[5],) for x in p[1]
                                if sym not in flow.leaves(x[0])), p[2]) if p[1] else p

    def region(self, E, addr):
        """(root, lo, hi, offset or None) of an address"""
        s, o = addr[1], addr[2]
        known = True
        while s[0] == "ix":
            o = s[2] + (o if not known else 0)
            s, known = s[1], False
        lay = self.lay.get(s)
        if lay is None:
            return (s, 0, 1 << 30, o if known else None)
        i = bisect.bisect_right(lay, o) - 1
        lo = lay[i] if i >= 0 else 0
        hi = lay[i + 1] if i + 1 < len(lay) else 1 << 30
        return (s, lo, hi, o if known else None)

    def received(self, E, st, addr):
        r = E.root(addr[1])
        while r[0] == "o":
            r = r[1]
        return r[0] not in ("g", "al", "f") and r not in self.safe

    def dirty(self, E, st, addr):
        """the position of the witness in the string at addr (None: not there; -1: somewhere)"""
        if addr[0] != "s" or not st.prop[1]:
            return None
        root, lo, hi, o = self.region(E, addr)
        res = None
        for r, a, b, pos, must, at in st.prop[1]:
            if r != root or a != lo:
                continue
            if o is None:
                l = self.bound(E, st, addr)
                if pos is None or l is None or l <= pos:
                    res = -1
            elif pos is None:
                res = -1
            elif o <= pos and not any(E.peek(st, ("s", root, i)) == ("c", 0) for i in range(o, pos)):
                return pos - o if must else -1
        return res

    def bound(self, E, st, addr, hi=False):
        """smallest (largest) offset of an address in its object"""
        s, o = addr[1], addr[2]
        while s[0] == "ix":
            o += s[2]
            for x, sc in s[3]:
                b = st.hi(x) if hi else st.lo(x)
                if abs(b) >= 1 << 32:
                    return None
                o += b * sc
            s = s[1]
        return o

    def blur(self, E, st, addr):
        """something unknown is stored at an unknown place of the string"""
        root, lo, hi, o = self.region(E, addr)
        l, h = self.bound(E, st, addr), self.bound(E, st, addr, True)
        w = set()
        for x in st.prop[1] or ():
            if x[0] == root and x[1] == lo or root not in (P, ("a", 0)) and root[0] not in ("al", "g"):
                if root == x[0] and l is not None and x[3] is not None and l > x[3]:
                    w.add(x)
                    continue
                x = x[:4] + (False, None)
            w.add(x)
        st.prop = (st.prop[0], frozenset(w)) + st.prop[2:]

    def put(self, E, st, addr, k, must=True):
        """the witness is k characters after addr (None: somewhere after it)"""
        root, lo, hi, o = self.region(E, addr)
        pos = None if k is None or o is None else o + k
        w = {x for x in st.prop[1] or () if not (x[0] == root and x[1] == lo)}
        w.add((root, lo, hi, pos, must and pos is not None, addr if o is None and k == 0 else None))
        st.prop = (st.prop[0], frozenset(w)) + st.prop[2:]
        if pos is not None and must:
            E.store(st, ("s", root, pos), ("c", 47), 1, None)

    def clear(self, E, st, addr, n=None):
        """the n bytes at addr (None: the string) hold no witness any more"""
        if addr[0] != "s" or not st.prop[1]:
            return
        root, lo, hi, o = self.region(E, addr)
        if o is None and n is None:
            h = self.bound(E, st, addr, True)
            w = {x for x in st.prop[1] if not (x[0] == root and x[1] == lo and h is not None and x[3] is not None and h <= x[3])}
            st.prop = (st.prop[0], frozenset(w)) + st.prop[2:]
        if o is None:
            st.prop = (st.prop[0], frozenset(x for x in st.prop[1] if x[5] != addr)) + st.prop[2:]
            self.blur(E, st, addr)
            return
        w = set()
        for x in st.prop[1]:
            if x[0] == root and x[1] == lo and o is not None:
                if n is None:
                    # cut here: what follows is not part of the string
                    if o == lo or x[3] is not None and o <= x[3]:
                        continue
                elif x[3] is None and o == lo and n >= hi - lo or x[3] is not None and o <= x[3] < o + n:
                    continue
            w.add(x)
        st.prop = (st.prop[0], frozenset(w)) + st.prop[2:]

    def at_block(self, E, st, b):
        # the outcome of a comparison is worked out before states are joined
        for i, v in list(st.env.items()):
            if v[0] == "cmp" and st.prop[1]:
                can = [x for x in (0, 1) if E.assume(st.copy(), v, bool(x))]
                if len(can) == 1:
                    st.env[i] = ("c", can[0])

    # ---- memory
    def load_value(self, E, st, I, addr, size, cls):
        root = E.root(addr[1])
        if cls == self.act:
            return ("s", ARR, 0)
        if root == ARR and size == 8:
            return ("s", P, 0)
        if root[0] == "g" and root[1] in CT:
            n, c = CT[root[1]]
            if size == 8:
                return ("s", ("g", root[1] + " table"), 0)
        if root[0] == "g" and root[1].endswith(" table"):
            n, c = CT[root[1][:-6]]
            if addr[1] == root and addr[2] == 47 * n:
                return ("c", c)
            return None
        if size == 8 and root[0] == "g":
            v = E.fresh(st, I)
            self.safe.add(v[1])     # configuration, or what the product refers to
            return v
        if size == 1 and st.prop[1] is None and self.received(E, st, addr):
            rg = self.region(E, addr)
            if rg[0] == ("a", 0) and rg[1] not in self.text:
                return None
            v = E.fresh(st, I)
            self.bytes[v[1]] = addr
            return v
        if size == 1 and any(x[5] == addr for x in st.prop[1] or ()):
            return ("c", 47)
        if size == 1 and st.prop[1]:
            rg = self.region(E, addr)
            for r, lo, hi, pos, must, sym in st.prop[1]:
                if r == rg[0] and lo == rg[1] and pos is not None and rg[3] is not None and must:
                    self.hot |= {(h, r, lo) for h in self.loops.get(I.blk.id, ())}
                    if rg[3] == pos:
                        return ("c", 47)
                    if rg[3] < pos and r[0] in ("g", "al", "a"):
                        old = E.peek(st, addr)
                        if old is not None:
                            return old
                        v = E.fresh(st, I)
                        st.ne = st.ne | {(v[1], 0)}
                        E.store(st, addr, v, 1, cls)
                        return v

    def byte(self, v):
        """where the received byte behind a value was read"""
        if v[0] != "s":
            return None
        x = v[1]
        while x not in self.bytes and x[0] == "op" and x[1] in ("zext", "sext", "trunc"):
            x = x[2][1] if x[2][0] == "s" else Z
        return self.bytes.get(x)

    def state_key(self, E, st, b):
        """pointers to the product are not joined with others; positions are told apart in loops that look at a string with the witness"""
        at = {}
        if st.prop[1]:
            for h in self.loops.get(b.id, ()):
                for r, lo, hi, pos, must, sym in st.prop[1]:
                    if must and (h, r, lo) in self.hot:
                        at[r] = pos
        k = []
        for i, v in st.env.items():
            if v[0] == "s":
                if v[1] in at and v[2] <= at[v[1]] + 8:
                    k.append((i, v[2]))
                elif v[1] == P:
                    k.append(i)
            elif at and v[0] == "c" and 0 <= v[1] < 64:
                k.append((i, v))
        return (st.prop, frozenset(k))

    def nest(self, E):
        """{block: heads of the loops it is in or right behind}"""
        pred = {}
        for b in E.f.blocks:
            for s in b.succ:
                pred.setdefault(s.id, []).append(b.id)
        r = {}
        for u, h in E.backedge:
            body, todo = {h}, [u]
            while todo:
                x = todo.pop()
                if x not in body:
                    body.add(x)
                    todo += pred.get(x, ())
            for _ in range(3):      # and what looks at the outcome
                body |= {s.id for b in E.f.blocks if b.id in body for s in b.succ}
            for x in body:
                r.setdefault(x, set()).add(h)
        return r

    def split(self, E, st, I, v, src):
        """the byte v, read from src, is the witness or is not"""
        if not E.assume(st.copy(), ("cmp", "eq", v, ("c", 47), 64), True):
            return None
        out = []
        for s in E.assume(st.copy(), ("cmp", "eq", v, ("c", 47), 64), False):
            out.append(s)
        for s in E.assume(st.copy(), ("cmp", "eq", v, ("c", 47), 64), True):
            s.prop = (s.prop[0], frozenset()) + s.prop[2:]
            self.put(E, s, src, 0)
            out.append(s)
        self.splits.add(where(I))
        return out

    def on_load(self, E, st, I, addr, cls):
        if addr[0] == "s" and st.prop[1] is None and addr[1][0] == "ix" and addr[1][1][0] == "g" and addr[1][1][1].endswith(" table"):
            for x, sc in addr[1][3]:
                src = self.byte(x)
                if src is not None:
                    r = self.split(E, st, I, x, src)
                    for s in r or ():
                        if s.prop[1] is not None:
                            s.mem[(addr[1], addr[2])] = (("c", CT[addr[1][1][1][:-6]][1]), I.x, cls)
                    return r

    def on_store(self, E, st, I, addr, val, cls):
        if cls == ("pctl_element_st", self.seq) or addr[0] == "s" and (addr[1], addr[2]) == (P, self.seq):
            o = E.const(st, val) != 0
            st.prop = (o, st.prop[1], st.prop[2] and o)
        if I.x != 1 or addr[0] != "s":
            return
        if E.root(addr[1]) == P and self.region(E, addr)[1] == self.fp:
            st.prop = st.prop[:2] + (True,)
        out = [st]
        if st.prop[1] is None:
            src = self.byte(val)
            if src is None:
                return
            out = self.split(E, st, I, val, src) or [st]
        for s in out:
            if s.prop[1] is None:
                continue
            c = E.const(s, val)
            if c == 47:
                if I.ops[0].kind != "c":
                    self.put(E, s, addr, 0)
            elif c == 0:
                self.clear(E, s, addr)
            elif c is not None:
                self.clear(E, s, addr, 1)
            else:
                self.blur(E, s, addr)
        return out

    # ---- calls
    def arrive(self, E, st, addr, n):
        """states: nothing new, or the witness arrives in one of the n characters at addr"""
        out = [st]
        root, lo, hi, o = self.region(E, addr)
        if n is None or o is None or n > 64:
            ks = [None]
        else:
            ks = range(min(n, hi - o))
        for k in ks:
            s = st.copy()
            s.prop = (s.prop[0], frozenset()) + s.prop[2:]
            self.put(E, s, addr, k)
            out.append(s)
        return out

    def scan(self, E, st, I, args):
        fmt = self.m.str_of(I.ops[1])
        E.default_call(st, I, "sscanf", args)
        n = E.fresh(st, I)
        specs = conversions(fmt, len(args) - 2)
        for a, (c, w) in zip(args[2:], specs):
            if c in "sc" and a[0] == "s":
                self.clear(E, st, a)
        out = [(st, n)]
        if st.prop[1] is not None and not (self.dirty(E, st, args[0]) is not None):
            return out
        for j, (a, (c, w)) in enumerate(zip(args[2:], specs)):
            if c not in "sc" or a[0] != "s":
                continue
            s0 = st.copy()
            E.rng(s0, n, j + 1, len(specs))
            for s in self.arrive(E, s0, a, w)[1:]:
                self.splits.add(where(I))
                out.append((s, n))
        return out

    def on_call(self, E, st, I, name, args):
        if name is None:
            return None
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            name = "memcpy"
        if name.startswith("llvm.memset") or name == "memset":
            E.default_call(st, I, name, args)
            if E.const(st, args[1]) == 0 and args[0][0] == "s":
                self.clear(E, st, args[0], E.const(st, args[2]))
            return [(st, args[0])]
        if name in CT:
            return [(st, ("s", ("g", name), 0))]
        if name in IS:
            E.default_call(st, I, name, args)
            return [(st, ("c", 0) if E.const(st, args[0]) == 47 else E.fresh(st, I))]
        if name in ("tolower", "toupper"):
            if E.const(st, args[0]) is not None:
                c = E.const(st, args[0]) & 255
                return [(st, ("c", ord(getattr(chr(c), name[2:] if False else "lower" if name == "tolower" else "upper")()) if c < 128 else c))]
            return None
        if name in ("sscanf", "__isoc99_sscanf", "__isoc23_sscanf"):
            return self.scan(E, st, I, args)
        if name in COPY and args and args[0][0] == "s":
            return self.copy(E, st, I, name, args)
        if name in ("strchr", "index", "strrchr", "memchr", "strpbrk", "strlen", "strnlen", "strspn", "strcspn", "strstr", "strdup", "strcmp"):
            return self.search(E, st, I, name, args)
        return None

    def sources(self, E, st, addr, n):
        """split: a received string that was not looked at yet may hold the witness"""
        if addr[0] != "s" or st.prop[1] is not None or not self.received(E, st, addr):
            return [st]
        root, lo, hi, o = self.region(E, addr)
        if root == ("a", 0) and lo not in self.text:
            return [st]
        if root == ("a", 0):
            n = hi - o if o is not None else None
        return self.arrive(E, st, addr, n)

    def copy(self, E, st, I, name, args):
        d, src, sz = COPY[name]
        n, first = None, False
        if src == "rest":
            i = 2 if name == "snprintf" else 1
            fmt = self.m.str_of(I.ops[i])
            first = (fmt or "").startswith("%s")
            n = E.const(st, args[1]) if name == "snprintf" else None
            n = n - 1 if n else None
            cv = conversions(fmt, len(args) - i - 1, False)
            src = [a for a, (c, w) in zip(args[i + 1:], cv) if c in "sc"]
        else:
            src = [args[i] for i in src]
            n = E.const(st, args[sz]) if sz is not None else None
        if name in ("memcpy", "memmove") and n is not None and n > 4096:
            return None
        sts = [st]
        for a in src:
            sts = [y for s in sts for y in self.sources(E, s, a, n)]
        if len(sts) > 1:
            self.splits.add(where(I))
        out = []
        for s in sts:
            ks = [self.dirty(E, s, a) for a in src]
            if args[0][1] == P and args[0][2] == self.fp:
                s.prop = s.prop[:2] + (True,)
            old = self.dirty(E, s, args[0]) if name in ("strcat", "strncat") else None
            E.default_call(s, I, name, args)
            v = s.env.get(I.id)
            ks = [(j, k) for j, k in enumerate(ks) if k is not None and not (n is not None and k >= n)]
            if name in EXACT and n is None:
                self.clear(E, s, args[0])
            elif name in EXACT:
                self.clear(E, s, args[0], n)
            elif name not in ("strcat", "strncat"):
                self.clear(E, s, args[0])
            for j, k in ks:
                exact = k >= 0 and (name in EXACT or first and j == 0 and (n is not None or name == "sprintf"))
                self.put(E, s, args[0], k if exact else None)
            if old is not None:
                self.put(E, s, args[0], old if old >= 0 else None)
            if I.w == 0:
                out.append((s, None))
            elif name in ("snprintf", "sprintf"):
                v = E.fresh(s, I)
                out.append((s, v))
            else:
                out.append((s, args[0] if name not in ("stpcpy", "strlcpy") else E.fresh(s, I)))
        return out

    def search(self, E, st, I, name, args):
        sts = self.sources(E, st, args[0], None)
        if len(sts) > 1:
            self.splits.add(where(I))
        out = []
        for s in sts:
            k = self.dirty(E, s, args[0])
            v = E.fresh(s, I)
            if name == "strdup":
                if k is not None:
                    self.put(E, s, v, k if k >= 0 else None)
            elif k is None and name in ("strchr", "index", "strrchr", "memchr", "strpbrk", "strstr") and args[0][0] == "s" and \
                    E.root(args[0][1])[0] in flow.ADDR:
                out.append((s.copy(), ("c", 0)))
                v = self.inside(E, s, I, args[0], 0, None)
            elif k is not None:
                if name in ("strchr", "index", "strrchr", "memchr"):
                    c = E.const(s, args[1])
                    hit = c == 47 and (name != "memchr" and k >= 0 or 0 <= k < (E.const(s, args[2]) or 0))
                    if not hit:
                        z = s.copy()
                        out.append((z, ("c", 0)))
                    if args[0][1][0] == "ix" or k < 0 or c is None:
                        out.append((s, self.inside(E, s, I, args[0], 0, None)))
                    elif c == 47:
                        out.append((s, self.inside(E, s, I, args[0], *((0, k) if name != "strrchr" else (k, None)))))
                    else:
                        z = s.copy()
                        out.append((z, self.inside(E, z, I, args[0], k + 1, None)))
                        if k > 0:
                            out.append((s, self.inside(E, s, I, args[0], 0, k - 1)))
                    continue
                elif name in ("strpbrk", "strstr"):
                    t = self.m.str_of(I.ops[1])
                    if t is not None and k >= 0 and ("/" in t if name == "strpbrk" else t == "/"):
                        s.ne = s.ne | {(v[1], 0)}
                        s.add(flow.Z, v[1], -1)
                elif name == "strlen" and k >= 0:
                    E.rng(s, v, k + 1, (1 << 31) - 1)
                elif name in ("strspn", "strcspn"):
                    t = self.m.str_of(I.ops[1])
                    if t is not None and ("/" in t) == (name == "strcspn") and k >= 0:
                        E.rng(s, v, 0, k)
            out.append((s, v))
        return out

    def inside(self, E, st, I, p, lo, hi):
        """a pointer to one of the characters lo..hi at p"""
        x = E.fresh(st, I)
        E.rng(st, x, lo, hi)
        return ("s", ("ix", p[1], p[2], ((x, 1),)), 0)

    def on_ret(self, E, st, I, val):
        if not st.prop[0]:
            return
        self.chk.count("ends with the product open")
        if not st.prop[2]:
            self.chk.violation("%s:no-path" % self.name, I.file, I.line, self.name,
                               "a product is kept without a path of its own", E.path(st, I))
        d = self.dirty(E, st, ("s", P, self.fp))
        if d is not None:
            self.chk.violation("%s:path" % self.name, I.file, I.line, self.name,
                               "a '/' from the received name is part of the path of a product that is kept", E.path(st, I))
        else:
            self.chk.ok("no received '/' in the path of a kept product", self.name)


ROOTS = (("sbnframeproc", "sbn_frame"), ("slavenbsproc", "nbs1_packet_st"))


def check(chk):
    m, mods = chk.nbspd, chk.ctx.mods()
    chk.rule = "at the end of a received frame, no '/' that was received is in the path of a product that stays open"
    for name, arg in ROOTS:
        keep = {"pctldb_send_pce", "write_memfile", "write_memframe", "uwildregex_match", "file_exists", "adjust_memfile_size",
                "open_memfile", "close_memfile", "sbn_unpack_frame"}
        f = flat(chk, m, name, keep)
        s = S(chk, m, name, arg)
        E = chk.run_flow(f, s, mods=mods, K=16, KL=2)
        chk.count("places where a '/' can arrive", len(s.splits))
    chk.atleast("places where a '/' can arrive", 2)
    chk.atleast("ends with the product open", 2)
