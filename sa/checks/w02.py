"""W02 what is packed for the network is unpacked as the same"""
import flow, proc
from util import *
EXPLANATION = ("A domain that records for every byte of a packet of which byte of which value it is: the packing of a product for the queues, the packets made from it for a client, "
               "and the two receivers, which are interpreted on exactly the bytes that the senders produce; the numbers of the packets of a product are related to the count of those sent by difference bounds.")

PCE, NBS, PI, PKT, GHOST = ("PCE",), ("NBS",), ("PI",), ("PKT",), ("al", "ghost packets")
LENGTH, BLOCKS, LEFT = ("al", "ghost length"), ("al", "ghost blocks"), ("al", "ghost left")
ATTR = ("seq_number", "psh_product_type", "psh_product_category", "psh_product_code", "np_channel_index")
COPY = {"strncpy": 2, "strcpy": None, "stpcpy": None, "memcpy": 2, "memmove": 2, "llvm.memcpy.p0.p0.i64": 2, "llvm.memmove.p0.p0.i64": 2, "strlcpy": 2}


# ---- which byte of which value
def prov(v, n=8):
    """the n lowest bytes: ints, (value, index) or None"""
    if v[0] == "c":
        return [(v[1] >> (8 * i)) & 255 for i in range(n)]
    if v[0] != "s":
        return [None] * n
    sym = v[1]
    if v[2] == 0 and isinstance(sym, tuple):
        if sym[0] == "byte":
            return [(sym[1], sym[2])] + [None] * (n - 1)
        if sym[0] == "cat":
            return (list(sym[1]) + [None] * n)[:n]
        if sym[0] == "op":
            op, a = sym[1], sym[2]
            if op == "trunc":
                k = sym[3] // 8
                return (prov(a, n)[:k] + [None] * n)[:n]
            if op == "zext":
                k = sym[3] // 8
                return (prov(a, n)[:k] + [0] * n)[:n]
            if op == "bswap":
                k = sym[3] // 8
                return (prov(a, k)[::-1] + [None] * n)[:n]
            b = sym[3]
            if op in ("lshr", "ashr", "shl") and b[0] == "c" and b[1] % 8 == 0:
                w = sym[4] // 8
                k = b[1] // 8
                p = prov(a, w)
                if op == "shl":
                    p = [0] * k + p[:w - k]
                else:
                    p = p[k:] + [0 if op == "lshr" else None] * k
                return (p + [None] * n)[:n]
            if op == "and" and (a[0] == "c" or b[0] == "c"):
                if a[0] == "c":
                    a, b = b, a
                p, q = prov(a, n), prov(b, n)
                return [0 if y == 0 else x if y == 255 else None for x, y in zip(p, q)]
            if op in ("or", "add", "xor"):
                p, q = prov(a, n), prov(b, n)
                r = [y if x == 0 else x if y == 0 else None for x, y in zip(p, q)]
                if None not in r[:2] or any(isinstance(x, tuple) and x[0] != v for x in r):
                    return r
    return [(v, i) for i in range(n)]


def whole(E, st, v, w):
    """the value whose bytes v is put together from, if it is that value"""
    if v[0] != "s" or v[2] != 0 or not isinstance(v[1], tuple) or v[1][0] not in ("op", "byte", "cat"):
        return None
    k = max(1, w // 8)
    p = prov(v, k)
    if all(isinstance(x, int) for x in p):
        n = sum(x << (8 * i) for i, x in enumerate(p))
        return ("c", n - (1 << w) if w and n >> (w - 1) and w > 1 else n)
    if not isinstance(p[0], tuple) or p[0][1] != 0:
        return None
    V = p[0][0]
    if V == v:
        return None
    n = 0
    while n < k and p[n] == (V, n):
        n += 1
    if n == k:
        lo, hi = st.lo(V), st.hi(V)
        if width(V) == w or lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
            return V
    if 0 < n < k and all(x == 0 for x in p[n:]) and st.lo(V) >= 0 and st.hi(V) < (1 << (8 * n)):
        return V
    return None


def width(V):
    if V[0] == "s" and isinstance(V[1], tuple) and V[1][0] in ("pce", "w") and V[1][1] == "seq_number":
        return 32
    if V[0] == "s" and isinstance(V[1], tuple) and V[1][0] == "sum" and V[2] == 0:
        return 32           # calc_checksum() returns 32 bits
    return 64


class Packet:
    """what is in a packet: bytes by position, texts (position, length, whose), content (position, length), size"""
    def __init__(self):
        self.bytes, self.texts, self.content, self.size, self.rng, self.expect = {}, [], None, None, {}, {}
        self.sums = ()


class Base(flow.Spec):
    """prop: (texts in memory: (root, offset, length, whose)..., parts read: (root, offset, position)..., position in the stream, contents read: (root, offset))"""
    src = None

    def __init__(self, m, good, bad):
        self.m, self.good, self.bad = m, good, bad
        di = m.di()
        self.flds = {}
        for s in ("pctl_element_st", "packet_info_st", "nbs1_packet_st"):
            for o, f in di.structs.get(s, {}).items():
                self.flds[(s, o)] = f[0] if isinstance(f, (tuple, list)) else f
        if not self.flds:
            raise AnalysisBroken("structures not found")

    def fail(self, k, E, st, I, msg):
        self.bad.setdefault((k, where(I)), (I, E.path(st, I), msg))

    def ok(self, what, I):
        self.good[(what, where(I))] = I

    def init(self, E, st):
        if self.src is not None:
            for s, (lo, hi) in self.src.rng.items():
                E.rng(st, ("s", s, 0), lo if lo > -flow.INF // 2 else None, hi if hi < flow.INF // 2 else None)
        st.ne = st.ne | {(x, 0) for x in (PCE, NBS, PI, PKT)}
        return ((), (), ("c", 0), (), False, ())

    def prop_key(self, p):
        return p

    def prop_syms(self, p):
        r = [t[2][1] for t in p[0] if t[2][0] == "s"] + [t[0] for t in p[0] + p[1] + p[3]]
        return tuple(r) + ((p[2][1],) if p[2][0] == "s" else ()) + (PCE, NBS, PI, PKT) + (tuple(self.src.rng) if self.src else ())

    def prop_rename(self, p, m):
        return flow.subst(p, m)

    # ---- texts
    def whose(self, E, st, v):
        """(text, length or None) a pointer points to"""
        if v[0] != "s":
            return None
        for r, o, n, w in st.prop[0]:
            if (r, o) == (v[1], v[2]):
                return w, n
        t = self.at(st, v)
        if t is not None and self.src is not None:
            for p, n, w in self.src.texts:
                if t == p:
                    return w, n
        return self.origin(E, v)

    def origin(self, E, v):
        return None

    def at(self, st, v):
        """position in the packet of an address"""
        for r, o, p in reversed(st.prop[1]):
            if v[1] == r and v[2] >= o:
                return p + v[2] - o
        return None

    def upd(self, st, **kw):
        n = ("texts", "parts", "pos", "content", "failed", "ids")
        p = list(st.prop)
        for k, v in kw.items():
            p[n.index(k)] = v
        st.prop = tuple(p)

    def copytext(self, E, st, I, dst, src, n):
        w = self.whose(E, st, src)
        if dst[0] != "s":
            return
        t = [x for x in st.prop[0] if not (x[0] == dst[1] and x[1] == dst[2])]
        if w is not None:
            who, have = w
            k = n if n is not None else have
            if k is None:
                k = ("c", 1 << 20)
            if have is not None and have[0] == "c" and k[0] == "c":
                k = ("c", min(have[1], k[1]))
            t.append((dst[1], dst[2], k, who))
            self.copied(E, st, I, dst, who, k)
        self.upd(st, texts=tuple(sorted(t, key=repr)))

    def copied(self, E, st, I, dst, who, n):
        pass

    def on_arith(self, E, st, I, v):
        if I.w == 8:
            p = prov(v, 1)[0]
            if isinstance(p, tuple) and p != (v, 0):
                r = ("s", ("byte",) + p, 0)
                E.rng(st, r, -128, 127)
                return r
        if isinstance(I.w, int) and I.w >= 8:
            return whole(E, st, v, I.w)
        return None

    def load_value(self, E, st, I, addr, size, cls):
        if self.src is None or addr[0] != "s":
            return None
        t = self.at(st, addr)
        if t is None:
            # the last character of a text, whose place depends on its length
            s = addr[1]
            if isinstance(s, tuple) and s[0] == "ix" and len(s[3]) == 1 and s[3][0][1] == 1 and size == 1:
                b = self.at(st, ("s", s[1], s[2] + addr[2]))
                if b is not None:
                    for p, n, w in self.src.texts:
                        x = s[3][0][0]
                        if x[0] == "s" and n[0] == "s" and x[1] == n[1] and b + x[2] == p + n[2] - 1:
                            return ("c", 0)
            return None
        for p, n, w in self.src.texts:
            if n[0] == "c" and p <= t < p + n[1]:
                return ("c", 0) if t == p + n[1] - 1 and size == 1 else None
        r = [self.src.bytes.get(t + i) for i in range(size)]
        if None in r:
            return None
        if all(isinstance(x, int) for x in r):
            x = sum(y << (8 * i) for i, y in enumerate(r))
            return ("c", x - (1 << (8 * size)) if x >> (8 * size - 1) else x)
        if size == 1:
            v = ("s", ("byte",) + r[0], 0)
            E.rng(st, v, -128, 127)
            return v
        return ("s", ("cat", tuple(r)), 0)

    def content_of(self, E, st, v):
        """pure: value of a function of memory only"""
        w = self.whose(E, st, v)
        if w is not None:
            return ("text", w[0])
        return None

    def on_store(self, E, st, I, addr, val, cls):
        if addr[0] == "s":
            t = []
            for x in st.prop[0]:
                if x[0] == addr[1] and x[1] <= addr[2] and (x[2][0] != "c" or addr[2] < x[1] + x[2][1]):
                    if val == ("c", 0) and x[2][0] == "c" and addr[2] > x[1]:
                        x = x[:2] + (("c", addr[2] - x[1]), x[3])
                    else:
                        continue
                t.append(x)
            if tuple(t) != st.prop[0]:
                self.upd(st, texts=tuple(t))
        return self.stored(E, st, I, addr, val, cls)

    def stored(self, E, st, I, addr, val, cls):
        return None

    def region(self, E, st, v):
        """what the bytes from v on are, as far as they are known"""
        if v[0] != "s":
            return None
        t = self.at(st, v)
        if t is not None and self.src is not None:
            return tuple(sorted((k - t, b) for k, b in self.src.bytes.items() if k >= t)), tuple(sorted(((p - t, w) for p, n, w in self.src.texts if p >= t), key=repr))
        b = {}
        for (s, o), (x, n, c) in st.mem.items():
            if s == v[1] and o >= v[2]:
                for i, y in enumerate(prov(x, n)):
                    b[o - v[2] + i] = y
        return tuple(sorted(b.items())), tuple(sorted(((o - v[2], w) for r, o, n, w in st.prop[0] if r == v[1] and o >= v[2]), key=repr))

    def on_call(self, E, st, I, name, args):
        if name in COPY:
            n = args[COPY[name]] if COPY[name] is not None else None
            self.copytext(E, st, I, args[0], args[1], n)
            if "memcpy" in name or "memmove" in name:
                k = E.const(st, args[2])
                if k in (1, 2, 4, 8) and args[0][0] == "s" and args[1][0] == "s":
                    r = st.mem.get((args[1][1], args[1][2]))
                    v = r[0] if r and r[1] == k else None
                    if v is None:
                        v = self.load_value(E, st, I, args[1], k, None)
                    E.default_call(st, I, name, args)
                    if v is not None:
                        E.store(st, args[0], v, k, None)
                    return [(st, args[0])]
                if args[0][0] == "s" and k is not None:
                    wipe(st, args[0], k)
                else:
                    E.default_call(st, I, name, args)
            return [(st, args[0])]
        if name == "snprintf" and len(args) == 4 and args[2][0] == "s" and self.m.cstring(args[2][1][1] if args[2][1][0] == "g" else "") == "%s":
            self.copytext(E, st, I, args[0], args[3], args[1])
            return [(st, E.fresh(st, I))]
        if name and name.startswith("llvm.bswap"):
            return [(st, ("s", ("op", "bswap", args[0], I.w), 0))]
        if name == "calc_checksum":
            v = ("s", ("sum", self.region(E, st, args[0]), args[1]), 0)
            return [(st, v)]
        if name == "findbasename":
            w = self.whose(E, st, args[0])
            v = ("s", ("base", w[0] if w else args[0]), 0)
            st.ne = st.ne | {(v[1], 0)}
            return [(st, v)]
        return None


class Pack(Base):
    """a product is packed for the queues"""
    def __init__(self, m, good, bad):
        Base.__init__(self, m, good, bad)
        self.out = []

    def init(self, E, st):
        r = Base.init(self, E, st)
        for a, rg in RANGES.items():
            E.rng(st, ("s", ("pce", a), 0), *rg)
        st.env[("a", 0)] = ("s", PI, 0)
        return r

    def prop_syms(self, p):
        return Base.prop_syms(self, p) + tuple(("pce", a) for a in ATTR + ("fpath", "fpath_size"))

    def origin(self, E, v):
        if v[1] == ("pce", "fpath") and v[2] == 0:
            return ("pce", "fpath"), None
        f = self.flds.get(("pctl_element_st", v[2])) if v[1] == ("a", 1) else None
        return (("pce", f), None) if f else None

    def load_value(self, E, st, I, addr, size, cls):
        if cls and cls[0] == "pctl_element_st":
            return ("s", ("pce", self.flds.get(cls, "?")), 0)
        if cls and cls[0] == "packet_info_st" and self.flds.get(cls) == "packet":
            return ("s", PKT, 0)
        return None

    def on_ret(self, E, st, I, val):
        if val is not None and E.decide(st, "eq", val, ("c", 0)) is False:
            return
        q = collect(E, st, ("s", PKT, 0), lambda v: v, st.prop[0])
        for k in ATTR + ("fpath", "fpath_size"):
            s = ("pce", k)
            q.rng[s] = (st.lo(("s", s, 0)), st.hi(("s", s, 0)))
        q.size = [v for (s, o), (v, n, c) in st.mem.items() if c and c[0] == "packet_info_st" and self.flds.get(c) == "packet_size"]
        q.size = q.size[0] if q.size else None
        s = ("pce", "fpath_size")
        if q.size is not None and q.size[0] == "s" and q.size[1] != s and st.ub(q.size[1], s) == -st.ub(s, q.size[1]):
            q.size = ("s", s, q.size[2] + st.ub(q.size[1], s))
        self.out.append((q, I, E.path(st, I)))


RANGES = {"seq_number": (None, None), "psh_product_type": (0, 255), "psh_product_category": (0, 255), "psh_product_code": (0, 255), "np_channel_index": (0, 255),
          "fpath_size": (2, 1 << 16), "num_blocks": (1, 65535), "block_number": (1, 65535), "block_size": (1, 65536)}


def collect(E, st, buf, ren, texts):
    q = Packet()
    for (s, o), (v, n, c) in st.mem.items():
        if s == buf[1] and o >= buf[2]:
            for i, b in enumerate(prov(v, n)):
                if isinstance(b, tuple):
                    V = ren(b[0])
                    b = (V, b[1]) if V is not None and V[0] != "c" else (V[1] >> (8 * b[1])) & 255 if V is not None else None
                if b is not None:
                    q.bytes[o - buf[2] + i] = b
    for r, o, n, w in texts:
        if r == buf[1] and o >= buf[2]:
            q.texts.append((o - buf[2], n, w))
            if n[0] == "c":
                for i in range(n[1]):
                    q.bytes.pop(o - buf[2] + i, None)
    return q


class Send(Base):
    """the packets of a product are made and sent to a client"""
    def __init__(self, m, src, good, bad):
        Base.__init__(self, m, good, bad)
        self.src = src
        self.out = {}
        self.pk = off(m, "nbs1_packet_st", "packet")
        self.sent = 0
        self.loop = None

    def init(self, E, st):
        r = Base.init(self, E, st)
        st.mem[(GHOST, 0)] = (("c", 0), 4, None)
        parts = tuple((("a", k), 0, 0) for k in range(1, 2))
        return ((), parts, ("c", 0), (), "new", ())

    def prop_syms(self, p):
        return Base.prop_syms(self, p) + (GHOST, LENGTH, BLOCKS, LEFT)

    def load_value(self, E, st, I, addr, size, cls):
        if cls and cls[0] == "stat" and cls[1] == off(self.m, "stat", "st_size") and size == 8:
            # files have no negative size
            v = E.fresh(st, I)
            E.rng(st, v, 0, None)
            return v
        return Base.load_value(self, E, st, I, addr, size, cls)

    def origin(self, E, v):
        if v[2] == 0 and isinstance(v[1], tuple) and v[1][0] == "base":
            return v[1], None
        return None

    def on_call(self, E, st, I, name, args):
        if name in ("read", "nbsp_cspoolbdb_read", "nbsp_mspoolbdb_read", "fread", "pread", "readn"):
            a = args[1] if name != "fread" else args[0]
            n = args[2]
            wipe(st, a, st.hi(n))
            keep = tuple(x for x in st.prop[3] if x[0] != a[1])
            s = st.copy()
            self.upd(st, content=keep + ((a[1], a[2]),) if a[0] == "s" else keep)
            self.upd(st, failed="read")
            st.mem[(LENGTH, 0)] = (n, 8, None)
            self.upd(s, content=keep, failed="failed")
            v = E.fresh(s, I)
            return [(st, n)] + [(x, v) for x in E.assume(s, ("cmp", "slt", v, n, 64), True)]
        if name == "writem":
            self.packet(E, st, I, args[1], args[2])
            g = st.mem[(GHOST, 0)][0]
            s = st.copy()
            self.upd(s, failed="failed")
            self.upd(st, failed="sent")
            st.mem[(GHOST, 0)] = (("c", g[1] + 1) if g[0] == "c" else ("s", g[1], g[2] + 1), 4, None)
            r = st.mem.get((LEFT, 0), (None,))[0]
            if r is not None and r[0] in ("c", "s"):
                st.mem[(LEFT, 0)] = (("c", r[1] - 1) if r[0] == "c" else ("s", r[1], r[2] - 1), 4, st.mem[(LEFT, 0)][2])
            v = E.fresh(s, I)
            return [(st, args[2])] + [(x, v) for x in E.assume(s, ("cmp", "slt", v, args[2], 64), True)]
        return Base.on_call(self, E, st, I, name, args)

    def stored(self, E, st, I, addr, val, cls):
        f = self.flds.get(cls) if cls and cls[0] == "nbs1_packet_st" else None
        if f == "num_blocks":
            st.mem[(BLOCKS, 0)] = st.mem[(LEFT, 0)] = (val, 4, cls)
        if f == "block_number":
            self.upd(st, failed="new" if st.prop[4] != "read" else "read")
        if f in ("block_number", "block_size", "f_zip"):
            self.upd(st, ids=tuple(sorted([x for x in st.prop[5] if x[0] != f] + [(f, val)], key=repr)))
        return None

    def at_block(self, E, st, b):
        # the rest of the memory has nothing to do with it
        for k in [k for k in st.mem if k[0][0] not in ("al", "w") and k[0] != ("a", 1)]:
            del st.mem[k]
        if b.id in self.inloop(E):
            roots = {k[0] for k, v in st.mem.items() if v[2] and v[2][0] in ("nbs1_packet_st", "packet_info_st")} | {GHOST, LENGTH, BLOCKS, LEFT}
            for k in [k for k in st.mem if k[0][0] == "al" and k[0] not in roots]:
                del st.mem[k]
        else:
            # what is the same for all packets has one name, however it was found out
            for k, (v, n, c) in list(st.mem.items()):
                if c and c[0] == "nbs1_packet_st" and (v[0] == "s" and not (isinstance(v[1], tuple) and v[1][0] in ("pce", "w")) and self.flds.get(c) not in ("block", None) or v[0] == "c" and v[1] != 0):
                    w = ("s", ("w", self.flds[c]), 0)
                    lo, hi = st.lo(v), st.hi(v)
                    if v[0] == "c" and v[1] > 0:
                        lo, hi = 1, v[1]
                    if self.flds[c] == "num_blocks":
                        lo, hi = min(lo, 0), 65535          # (a product of 4 GB and more is not representable)
                    E.rng(st, w, lo if lo > -flow.INF // 2 else None, hi if hi < flow.INF // 2 else None)
                    st.mem[k] = (w, n, c)
        if b.id in E.heads:
            # what is in the packet is of the packet before
            self.upd(st, ids=tuple(x for x in st.prop[5] if x[0] != "block_number"))

    def inloop(self, E):
        if self.loop is None:
            r = set()
            for t, h in E.backedge:
                t, h = [x.id if hasattr(x, "id") else x for x in (t, h)]
                by = {x.id: x for x in E.f.blocks}
                body, todo = {h, t}, [t]
                while todo:
                    x = todo.pop()
                    if x == h:
                        continue
                    for y in by[x].pred:
                        if y.id not in body:
                            body.add(y.id)
                            todo.append(y.id)
                r |= body
            self.loop = r
        return self.loop

    def packet(self, E, st, I, buf, size):
        self.sent += 1
        fld = {}
        for k in ("num_blocks", "block_number", "block_size", "f_zip"):
            r = st.mem.get((buf[1], buf[2] - self.pk + off(self.m, "nbs1_packet_st", k)))
            fld[k] = r[0] if r else None
        names = {}
        for k in ("f_zip", "block_size", "num_blocks", "block_number"):
            v = fld[k]
            if v is not None and v[0] == "s" and not (isinstance(v[1], tuple) and v[1][0] == "pce"):
                names[v[1]] = (k, v[2])

        def ren(v):
            if v[0] == "s" and v[1] in names:
                k, d = names[v[1]]
                return ("s", ("w", k), v[2] - d)
            return v
        q = collect(E, st, buf, ren, st.prop[0])
        q.size = ren(size)
        for r, o in st.prop[3]:
            if r == buf[1]:
                n = st.mem.get((LENGTH, 0), (None,))[0]
                q.content = (o - buf[2], ren(n) if n is not None else None)
                q.bytes = {k: v for k, v in q.bytes.items() if k < q.content[0]}
        q.bytes = {k: v for k, v in q.bytes.items() if k < 4096}
        if q.content is None:
            self.fail("content", E, st, I, "a packet is sent without a block of the product read into it")
            return
        q.rng = dict(self.src.rng)
        for k, v in fld.items():
            q.expect[k] = ren(v) if v is not None else None
            if v is not None and v[0] == "s":
                x = ren(v)
                q.rng[x[1]] = RANGES[k] if k in RANGES else (st.lo(v), st.hi(v))
        key = repr((sorted(q.bytes.items(), key=repr), q.texts, q.content, q.size, sorted(q.rng.items(), key=repr)))
        self.out[key] = (q, I, E.path(st, I))
        # the number of the packet
        g = st.mem[(GHOST, 0)][0]
        b = fld["block_number"]
        nx = ("c", g[1] + 1) if g[0] == "c" else ("s", g[1], g[2] + 1)
        if b is None or E.decide(st, "eq", b, nx) is not True:
            self.fail("number", E, st, I, "the packets of a product are not, or may not be, numbered one after the other from 1")
        else:
            self.ok("packets are numbered 1, 2, ...", I)
        nb = fld["num_blocks"]
        left = st.mem.get((LEFT, 0), (None,))[0]
        if (nb is None or b is None or E.decide(st, "sle", b, nb) is not True) and (left is None or E.decide(st, "sge", left, ("c", 1)) is not True):
            self.fail("beyond", E, st, I, "the number of a packet is, or may be, larger than the number of packets announced")
        else:
            self.ok("no packet is numbered higher than the number announced", I)
        self.last = (buf, nb)

    def on_ret(self, E, st, I, val):
        if E.decide(st, "eq", val, ("c", 0)) is False:
            return
        g = st.mem.get((GHOST, 0), (None,))[0]
        v = st.mem.get((BLOCKS, 0), (None,))[0]
        # every packet was sent
        left = st.mem.get((LEFT, 0), (None,))[0]
        if (g is None or v is None or E.decide(st, "sge", g, v) is not True) and (left is None or E.decide(st, "sle", left, ("c", 0)) is not True):
            self.fail("fewer", E, st, I, "success is returned, or may be, although fewer packets were sent than announced")
        else:
            self.ok("success means that every packet was sent", I)


class Recv(Base):
    """a packet is received: the bytes read are those a sender made"""
    def __init__(self, m, src, struct, good, bad):
        Base.__init__(self, m, good, bad)
        self.src, self.struct = src, struct
        self.done = 0

    def init(self, E, st):
        r = Base.init(self, E, st)
        return r

    def load_value(self, E, st, I, addr, size, cls):
        if cls == ("packet_info_st", off(self.m, "packet_info_st", "packet")):
            return ("s", PKT, 0)
        if cls == ("packet_info_st", off(self.m, "packet_info_st", "packet_size")) and self.src.size is not None:
            return self.src.size
        return Base.load_value(self, E, st, I, addr, size, cls)

    def on_call(self, E, st, I, name, args):
        if name in ("readn", "read", "recv"):
            buf, n = args[1], args[2]
            texts, parts, pos, content, failed = st.prop[:5]
            wipe(st, buf, st.hi(n))
            p = E.const(st, pos)
            if p is None:
                self.fail("stream", E, st, I, "more is read although the packet was read to its end")
                return [(st, n)]
            x = E.const(st, n)
            np = ("c", p + x) if x is not None else ("s", n[1], n[2] + p)
            self.upd(st, parts=parts + ((buf[1], buf[2], p),), pos=np)
            return [(st, n)]
        return Base.on_call(self, E, st, I, name, args)

    def copied(self, E, st, I, dst, who, n):
        if self.struct == "nbs1_packet_st" and dst[1] == ("a", 1):
            f = self.flds.get((self.struct, dst[2]))
            if f == "fbasename":
                if who != ("base", ("pce", "fpath")):
                    self.fail(f, E, st, I, "the base name taken from the packet is not that of the product packed")
                elif n[0] == "c" and n[1] < FB:
                    self.fail(f, E, st, I, "the base name taken from the packet may be cut short")
                else:
                    self.ok("the base name received is the one sent", I)

    def fields(self, E, st, I):
        """what is in the structure when the packet was accepted"""
        cells = {self.flds.get(c): v for (s, o), (v, n, c) in st.mem.items() if c and c[0] == self.struct}
        for f in sorted({x for (t, o), x in self.flds.items() if t == self.struct}):
            val = cells.get(f)
            if f in ATTR:
                want = ("s", ("pce", f), 0)
            elif f in ("fname", "fpath") and self.struct == "packet_info_st":
                w = self.whose(E, st, val) if val is not None else None
                if w is None or w[0] != ("pce", f):
                    self.fail(f, E, st, I, "%s is not where it was put in the packet" % f)
                else:
                    self.ok("%s is taken from where it was put in the packet" % f, I)
                continue
            elif f in self.src.expect:
                want = self.src.expect[f]
            elif f == "packet_size" and self.src.content is not None:
                want = self.src.size
            else:
                continue
            if want is None or val is None or val != want and E.decide(st, "eq", val, want) is not True:
                self.fail(f, E, st, I, "the %s received is not, or may not be, the one packed by the sender" % f)
            else:
                self.ok("%s received is the one packed" % f, I)

    def on_ret(self, E, st, I, val):
        self.done += 1
        if E.decide(st, "eq", val, ("c", 0)) is not True:
            self.fail("refused", E, st, I, "a packet as the sender makes them is, or may be, refused")
        elif self.src.size is None or st.prop[2] != self.src.size and E.decide(st, "eq", st.prop[2], self.src.size) is not True:
            self.fail("size", E, st, I, "the number of bytes read is not, or may not be, the size of the packet sent: the next packet is read from a wrong place")
        else:
            self.ok("a packet as the sender makes them is accepted and read to its end", I)
            self.fields(E, st, I)
            if self.src.content is not None:
                r = st.mem.get((("a", 1), off(self.m, "nbs1_packet_st", "block")))
                t = self.at(st, r[0]) if r and r[0][0] == "s" else None
                if t != self.src.content[0]:
                    self.fail("block", E, st, I, "the content is not taken from where it was put in the packet")
                else:
                    self.ok("the content is taken from where it was put in the packet", I)


class Slave(Base):
    """a received packet is turned into the product of the slave"""
    NAMES = {a: a for a in ATTR}
    NAMES.update({"num_fragments": "num_blocks", "fbasename": "fbasename"})

    def load_value(self, E, st, I, addr, size, cls):
        if cls and cls[0] == "nbs1_packet_st":
            v = ("s", ("w", self.flds.get(cls, "?")), 0)
            if v[1][1] == "block_size":
                E.rng(st, v, 1, 65536)
            return v
        return None

    def prop_syms(self, p):
        return Base.prop_syms(self, p) + tuple(("w", f) for f in ATTR + ("num_blocks", "block_number", "block_size", "block", "f_zip"))

    def origin(self, E, v):
        f = self.flds.get(("nbs1_packet_st", v[2])) if v[1] == ("a", 0) else None
        return (("w", f), None) if f else None

    def copied(self, E, st, I, dst, who, n):
        if who != ("w", "fbasename"):
            return
        if dst[2] == off(self.m, "pctl_element_st", "fbasename") and dst[1] != ("a", 0) and dst[1][0] != "al":
            if n[0] == "c" and n[1] < FB:
                self.fail("fbasename", E, st, I, "the base name of the slave's product may be cut short")
            else:
                self.ok("fbasename of the slave's product is the one received", I)

    def stored(self, E, st, I, addr, val, cls):
        if not cls or cls[0] != "pctl_element_st":
            return None
        f = self.flds.get(cls)
        if f in self.NAMES and f != "fbasename":
            if val == ("c", 0) and f == "seq_number":
                pass                # the element is free again
            elif val != ("s", ("w", self.NAMES[f]), 0):
                self.fail(f, E, st, I, "%s of the slave's product is not the one received" % f)
            else:
                self.ok("%s of the slave's product is the one received" % f, I)
        return None

    def on_call(self, E, st, I, name, args):
        if name in ("write_memfile", "write_memframe"):
            if args[1] != ("s", ("w", "block"), 0) or args[2] != ("s", ("w", "block_size"), 0):
                self.fail("content", E, st, I, "what is added to the slave's product is not the block received")
            else:
                self.ok("what is added to the slave's product is the block received", I)
            return None
        return Base.on_call(self, E, st, I, name, args)


def wipe(st, a, n):
    """the n bytes from a on are overwritten"""
    for k in [k for k, (v, z, c) in st.mem.items() if k[0] == a[1] and a[2] < k[1] + z and k[1] < a[2] + n]:
        del st.mem[k]


FB = 0


def check(chk):
    global FB
    m, mods = chk.nbspd, chk.ctx.mods()
    chk.rule = "unpack(pack(product)) = product, for the packets of the queues and file path clients and for those of nbs1 clients, byte by byte"
    FB = proc.macros(chk, "FBASENAME_SIZE")["FBASENAME_SIZE"]
    good, bad = {}, {}
    KEEP = {"calc_checksum", "findbasename", "readn", "writem"}

    def run(F, s, **kw):
        e = flow.Engine(F, s, mods=mods, K=kw.get("K", 16), KL=kw.get("KL", 6), max_steps=400000)
        e.pairs = (-1, 0, 1)
        e.head_thresholds = (-1, 0, 1, 65535, 65536)
        e.deepjoin = ("op", "sum", "byte", "cat")
        e.run()
        if e.truncated:
            raise AnalysisBroken(F.name)
        return s
    F = flat(chk, m, "nbsfp_pack_fpath", KEEP)
    p = run(F, Pack(m, good, bad))
    chk.count("packets for the queues", len(p.out))
    chk.atleast("packets for the queues", 1)
    R2 = flat(chk, m, "recv_fp_packet", KEEP)
    R1 = flat(chk, m, "recv_nbs_packet", KEEP)
    cand = callers_closure(m, ["writem"]) & callers_closure(m, ["nbsp_mspoolbdb_read"])
    cand = [f for f in cand if any("nbs1_packet_st" in str(I.x) for I in m.func(f).instrs() if I.op in ("alloca", "gep"))]
    cand = [f for f in cand if not any(I.x in cand for I in m.func(f).calls())]
    aside = callers_closure(m, ["pthread_mutex_lock"]) - callers_closure(m, KEEP - {"calc_checksum"})
    for q, I, path in p.out:
        for f in ("fname", "fpath"):
            if not any(w == ("pce", f) for _, _, w in q.texts):
                bad.setdefault((f, where(I)), (I, path, "%s of the product is not put in the packet" % f))
        r = run(R2, Recv(m, q, "packet_info_st", good, bad))
        chk.count("packets of file paths received", r.done)
        for root in cand:
            s = run(flat(chk, m, root, lambda n: n in KEEP or n in aside or n in ("nbsp_cspoolbdb_read", "nbsp_mspoolbdb_read", "nbsp_cspoolbdb_open", "nbsp_mspoolbdb_open",
                                                                    "nbsp_cspoolbdb_close", "nbsp_mspoolbdb_close")), Send(m, q, good, bad), K=10, KL=1)
            for q1, I1, path1 in s.out.values():
                chk.count("kinds of packets sent to a client")
                r = run(R1, Recv(m, q1, "nbs1_packet_st", good, bad))
                chk.count("packets received from a master", r.done)
    chk.atleast("packets of file paths received", 1)
    chk.atleast("kinds of packets sent to a client", 1)
    chk.atleast("packets received from a master", 1)
    F = flat(chk, m, "slavenbsproc", lambda n: n in KEEP or n in ("write_memfile", "write_memframe", "open_pctl_activepce"))
    run(F, Slave(m, good, bad), K=8)
    for k, I in good.items():
        chk.ok(k[0], k[1])
    for k, (I, path, msg) in bad.items():
        chk.violation("%s:%s" % (I.fn.name, k[0]), I.file, I.line, I.fn.name, msg, path)
    want = ["the base name received is the one sent", "the content is taken from where it was put in the packet", "what is added to the slave's product is the block received",
            "fbasename of the slave's product is the one received", "success means that every packet was sent"]
    want += ["%s received is the one packed" % a for a in ATTR] + ["%s of the slave's product is the one received" % a for a in ATTR + ("num_fragments",)]
    have = {k[0] for k in good}
    if not bad:
        for w in want:
            if w not in have:
                chk.violation("never:" + w, "packfp.c", 1, "", "no place was found where " + w)
