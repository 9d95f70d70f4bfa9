"""W01 sizes found in received data are checked before they are used"""
import bounds, flow
from util import *
EXPLANATION = ("The receive paths (satellite frames, master server blocks and packets, the input fifo) and the memory file they fill are interpreted on "
               "all paths with no assumption on the bytes received; every copy, read and decode must stay inside the buffers it uses. The functions meet "
               "at contracts (the spans found by sbn_unpack_frame, the sizes kept beside buffers) that are checked on both sides.")

# C library and nbsp calls: [(pointer argument, size argument)]
COPIES = {"memcpy": [(0, 2), (1, 2)], "memmove": [(0, 2), (1, 2)], "memset": [(0, 2)], "strncpy": [(0, 2)], "readm": [(1, 2)], "sreadm": [(1, 2)],
          "read": [(1, 2)], "read1": [(1, 2)], "recvfrom_channel_timed": [(1, 2)], "recvfrom_channel_nowait": [(1, 2)], "recvfrom": [(1, 2)],
          "recv": [(1, 2)], "readn": [(1, 2)], "uncompress": [(2, 3)], "write_memfile": [(1, 2)], "calc_checksum": [(0, 1)]}
READS = ("readm", "sreadm", "readn", "read", "read1", "recvfrom_channel_timed", "recvfrom_channel_nowait", "recvfrom", "recv")
# pointer field -> field with the number of bytes that belong to it (contracts)
OWNED = {("memfile_st", "p"): "allocsize", ("packet_info_st", "packet"): "packet_size", ("slavein_info_st", "buffer"): "buffer_size"}
SPANS = {("sbn_frame", "ctrlhdr"): "ctrlhdr_size", ("sbn_frame", "frdata"): "frdata_size", ("sbn_frame", "pdata"): "pdata_size",
         ("sbn_frame", "ccb"): "ccb_size"}
# arrays that receive data
WIRE = [("sbn_frame", "rawdata"), ("sbn_frame", "blkdata"), ("nbs1_packet_st", "packet")]
BIG = 1 << 40
LEAST = {"packet_info_st": 12, "memfile_st": 1}
MARKS = ("state", "sum")


class Spec(flow.Spec):
    """prop: {(symbol, size value)} buffers of known size; ("state", x)"""

    def __init__(self, chk, m, name, spans=True):
        self.chk, self.m, self.name, self.spans = chk, m, name, spans
        self.bad, self.good, self.vague = {}, {}, {}
        self.pairs, self.sizes = {}, {}
        for tab in (OWNED, SPANS):
            if tab is SPANS and not spans:
                continue
            for (s, p), z in tab.items():
                if s == "slavein_info_st" and m.di().offset(s, p) is None:
                    continue
                self.pairs[(s, off(m, s, p))] = (off(m, s, z), 4 if s in ("sbn_frame", "slavein_info_st") else 8, tab is SPANS)
                self.sizes[(s, off(m, s, z))] = (off(m, s, p), tab is SPANS)
        self.raw = off(m, "sbn_frame", "rawdata_size")
        self.cmd = off(m, "sbn_frame", "fh", "sbn_command")
        self.wiresyms = set()
        # quantities of the program itself, not of the sender
        self.facts = {("memfile_st", off(m, "memfile_st", f)): (0, BIG) for f in ("size", "nread", "maxallocsize")}
        self.facts[("pctl_element_st", off(m, "pctl_element_st", "fpath_size"))] = (0, 1 << 20)
        self.rets = 0

    def init(self, E, st):
        return frozenset()

    def prop_key(self, p):
        return frozenset(x for x in p if x[0] == "state")

    def on_branch(self, E, st, I, v, t):
        # sums that were compared are remembered
        if v[0] in ("and", "or", "not"):
            for x in v[1:]:
                self.on_branch(E, st, I, x, t)
        if v[0] == "cmp":
            for x in v[2:4]:
                if x[0] == "s" and x[1][:2] in (("op", "add"), ("op", "zext")) and len([1 for p in st.prop if p[0] == "sum"]) < 12:
                    st.prop = st.prop | {("sum", ("s", x[1], 0))}

    on_select = on_branch

    def prop_join(self, p, q):
        return p & q

    def prop_syms(self, p):
        return tuple(s for s, z in p if s not in MARKS) + tuple(z[1] for s, z in p if s != "state" and z[0] == "s") \
            + tuple(x for s, z in p if s != "state" and z[0] == "s" for x in flow.leaves(z[1]))

    def prop_rename(self, p, m):
        return frozenset((x[0] if x[0] in MARKS else flow.subst(x[0], m), flow.subst(x[1], m)) for x in p)

    def prop_drop(self, p, sym):
        has = lambda v: v == sym or isinstance(v, tuple) and any(has(x) for x in v)
        return frozenset(x for x in p if x[0] == "state" or not has(x))

    # ---- contracts
    def partner(self, E, st, I, base, cls, o, n):
        """value of the size field that goes with a pointer field"""
        a = ("s", base[0], base[1] + o)
        v = E.peek(st, a)
        # an unsigned quantity, and no object is larger; a packet holds at least the envelope, a memory file at least a byte
        lo = LEAST.get(cls[0], 0)
        if v is None:
            v = E.fresh(st, I, tag="cap")
            E.rng(st, v, lo, BIG if n == 8 else (1 << 31) - 1)
            st.mem[(a[1], a[2])] = (v, n, (cls[0], o))
        elif v[0] == "s" and n == 8:
            E.rng(st, v, lo, BIG)
        return v

    def pair(self, E, st, I, addr, v, cls):
        if v[0] != "s" or any(s == v[1] for s, z in st.prop if s not in MARKS):
            return
        o, n, span = self.pairs[cls]
        if span and not self.usable(E, st, addr, cls):
            return
        base = (addr[1], addr[2] - cls[1])
        if span:
            # the frame that was unpacked says how much belongs to the pointer
            x = self.partner(E, st, I, base, cls, o, n)
            E.rng(st, x, 0, None)
        else:
            x = self.partner(E, st, I, base, cls, o, n)
        st.prop = st.prop | {(v[1], x)}

    def usable(self, E, st, addr, cls):
        if ("state", "unpacked") not in st.prop:
            return self.name in INSIDE
        c = E.peek(st, ("s", addr[1], addr[2] - cls[1] + self.cmd))
        return c is not None and E.const(st, c) == DATA[0]

    def load_value(self, E, st, I, addr, size, cls):
        if cls in self.pairs and addr[0] == "s":
            v = E.fresh(st, I)
            self.wiresyms.add(v[1])
            self.pair(E, st, I, addr, v, cls)
            return v
        if cls in self.facts:
            return E.rng(st, E.fresh(st, I), *self.facts[cls])
        if cls in self.sizes:
            v = E.fresh(st, I)
            E.rng(st, v, LEAST.get(cls[0], 0) if size == 8 else None, BIG if size == 8 else None)
            return v
        return None

    def on_load(self, E, st, I, addr, cls):
        if addr[0] != "s":
            return
        if cls in self.pairs:
            v = E.peek(st, addr)
            if v is not None and v[0] == "s":
                self.wiresyms.add(v[1])
                self.pair(E, st, I, addr, v, cls)
        elif cls in self.sizes:
            v = E.peek(st, addr)
            o, span = self.sizes[cls]
            if v is not None and span and ("state", "unpacked") in st.prop and self.usable(E, st, addr, cls):
                E.rng(st, v, 0, None)
        if addr[1][0] == "ix":
            self.span(E, st, I, addr, ("c", I.x), "load", True)

    def on_store(self, E, st, I, addr, val, cls):
        if addr[0] != "s":
            return
        if cls in self.sizes and not self.sizes[cls][1]:
            # the buffer stays while its size changes
            pa = ("s", addr[1], addr[2] - cls[1] + self.sizes[cls][0])
            if E.peek(st, pa) is None:
                pc = (cls[0], self.sizes[cls][0])
                v = E.fresh(st, I, tag="buf")
                old = self.partner(E, st, I, (addr[1], addr[2] - cls[1]), cls, cls[1], self.pairs[pc][1])
                st.mem[(pa[1], pa[2])] = (v, 8, pc)
                st.prop = st.prop | {(v[1], old)}
        elif cls in self.pairs and not self.pairs[cls][2] and val == ("c", 0):
            pass
        if addr[1][0] == "ix":
            self.span(E, st, I, addr, ("c", I.x), "store", True)

    # ---- obligations
    def wire(self, E, st, p):
        """is it (a place in) a buffer of received data?"""
        s = p[1]
        while True:
            if s in self.wiresyms:
                return True
            if s[0] != "ix":
                break
            s = s[1]
        return False

    def span(self, E, st, I, p, size, what, indexed=False):
        if size == ("c", 0) or p[0] != "s":
            return
        for s, z in st.prop:
            if s not in MARKS:
                E.caps[(s, 0)] = z
        x = E.extent(st, p)
        ok, why = E.fits(st, p, size)
        for s, z in st.prop:
            if s not in MARKS:
                E.caps.pop((s, 0), None)
        k = (what, I.blk.id, I.id)
        if x is not None and isinstance(x[0], int) and x[0] not in WIRESIZES and (indexed or size[0] == "c" and x[1][0]):
            return            # an array that holds no received data, or a constant amount
        if x is not None and x[0] == 1:
            return            # open ended last member
        if ok is None:
            if indexed:
                return
            if self.wire(E, st, p):
                self.bad.setdefault(k, (I, E.path(st, I), "the size of the buffer is not known to be checked here"))
            else:
                self.vague.setdefault(k, (I, p, size))
        elif ok:
            self.good[k] = where(I)
        else:
            if indexed and not self.wire(E, st, p) and not (x and x[0] in WIRESIZES):
                return
            self.bad.setdefault(k, (I, E.path(st, I), why))

    def on_call(self, E, st, I, name, args):
        n = name
        if n and n.startswith("llvm.mem"):
            n = n.split(".")[1]
        if n in COPIES and (n != self.name):
            for p, z in COPIES[n]:
                if max(p, z) < len(args):
                    if n in ("write_memfile", "uncompress"):
                        if args[z][0] == "s" and st.lo(args[z]) < 0:
                            self.bad.setdefault((n + ":negative", I.blk.id, I.id), (I, E.path(st, I), "the size may be negative"))
                            continue
                    self.span(E, st, I, args[p], args[z], "%s:%d" % (n, p))
        if n == "uncompress":
            z = E.peek(st, args[1])
            if z is not None:
                self.span(E, st, I, args[0], z, "uncompress:0")
            if args[0][0] == "s":
                x = E.extent(st, args[0])
                a0 = args[0]
                n = x[0] - x[1][1] if x and isinstance(x[0], int) and not x[1][0] and z is not None else flow.INF
                for k in [k for k in st.mem if E.root(k[0]) == E.root(a0[1]) and (k[0] != a0[1] or a0[2] - st.mem[k][1] < k[1] < a0[2] + n)]:
                    del st.mem[k]
            v = E.fresh(st, I)
            if z is not None and args[1][0] == "s":
                y = E.fresh(st, I, tag="len")
                st.add(flow.Z, y[1], 0)
                if z[0] == "c":
                    E.rng(st, y, None, z[1])
                else:
                    st.add(y[1], z[1], z[2])
                st.mem[(args[1][1], args[1][2])] = (y, 8, None)
            return [(st, v)]
        if n in ("malloc", "realloc"):
            z = args[0] if n == "malloc" else args[1]
            v = E.default_call(st, I, name, args)
            st.prop = frozenset(x for x in st.prop if x[0] != v[1]) | {(v[1], z)}
            # an object of more than 2^40 bytes cannot be had, realloc(p, 0) gives none
            out = []
            for t in (True, False):
                for x in E.assume(st.copy(), ("cmp", "eq", v, ("c", 0), 64), t):
                    if t or z[0] != "s" or x.add(flow.Z, z[1], z[2] - (n == "realloc")) and x.add(z[1], flow.Z, BIG - z[2]):
                        out.append((x, v))
            return out
        if n == "sbn_unpack_frame" and n != self.name:
            z = E.peek(st, ("s", args[0][1], args[0][2] + self.raw))
            k = ("rawdata_size", I.blk.id, I.id)
            if z is None or st.hi(z) > WIRESIZES[0]:
                self.bad[k] = (I, E.path(st, I), "the size of the frame is not limited to the frame buffer")
            else:
                self.good[k] = where(I)
            v = E.default_call(st, I, name, args)
            out = []
            for t in (True, False):
                for s in E.assume(st.copy(), ("cmp", "eq", v, ("c", 0), 32), t):
                    s.prop = frozenset(x for x in s.prop if x[0] != "state") | {("state", "unpacked" if t else "rejected")}
                    out.append((s, v))
            return out
        if n in READS:
            r = E.root(args[1][1]) if args[1][0] == "s" else None
            for k in [k for k in st.mem if E.root(k[0]) == r and (k[0] != args[1][1] or k[1] + st.mem[k][1] > args[1][2]) and st.mem[k][2] not in self.pairs and st.mem[k][2] not in self.sizes]:
                del st.mem[k]
            v = E.fresh(st, I)
            E.rng(st, v, -4, None)
            if args[2][0] == "s":
                if st.lo(args[2]) >= 0:
                    st.add(v[1], args[2][1], args[2][2])
            elif args[2][0] == "c":
                E.rng(st, v, None, args[2][1])
            return [(st, v)]
        return None

    def on_ret(self, E, st, I, val):
        self.rets += 1
        # buffers and the sizes kept beside them
        for (s, o), (v, n, c) in list(st.mem.items()):
            if c in self.pairs and not self.pairs[c][2] and v[0] == "s" and n == 8:
                z = [z for y, z in st.prop if y == v[1]]
                if not z or flow.Engine.root(s)[0] == "al" or E.isnull(st, v) is True:
                    continue
                zo, zn, _ = self.pairs[c]
                y = E.peek(st, ("s", s, o - c[1] + zo))
                k = ("size kept with %s.%s" % (c[0], [p for (q, p) in OWNED if q == c[0]][0]), 0, 0)
                if y is None:
                    if v[1][0] == "i" and (len(v[1]) == 2 and self.isalloc(E, v[1][1])):
                        self.bad.setdefault(k, (I, E.path(st, I), "a new buffer is installed without its size"))
                    continue
                d = None
                a, b = bounds.linear(E, st, y), bounds.linear(E, st, z[0])
                if a and b:
                    d = bounds.upper(st, bounds.add(a, b, -1))
                if d is not None and d <= 0 or st.diff_ub(y, z[0]) <= 0:
                    self.good[k] = where(I)
                else:
                    self.bad.setdefault(k, (I, E.path(st, I), (y, z[0], d)))

    def isalloc(self, E, i):
        return i in self.allocs


DATA, WIRESIZES, INSIDE = [3], [], ()


def report(chk, s, root):
    for k, w in s.good.items():
        if k not in s.bad:
            chk.ok("%s stays within the buffer" % k[0], w)
    n = {}
    for k, (I, path, why) in sorted(s.bad.items()):
        kk = "%s:%s:%s" % (root, I.blk.fn if hasattr(I.blk, "fn") else I.file, k[0])
        n[kk] = n.get(kk, 0) + 1
        if isinstance(why, tuple):
            x = []
            if len(why) == 5:
                if why[3] > 0:
                    x.append("it may end %s past the buffer" % ("%d bytes" % why[3] if why[3] < 1 << 30 else "any distance"))
                if why[4] < 0:
                    x.append("it may begin before the buffer")
            why = "; ".join(x) or "the size may be negative or is not related to the buffer"
        chk.violation("%s:%d" % (kk, n[kk]), I.file, I.line, root, "%s: not shown to stay within the buffer (%s)" % (k[0], why), path)
    chk.count("copies and accesses shown", len([k for k in s.good if k not in s.bad]))


class Unpack(Spec):
    """sbn_unpack_frame, from the inside"""

    def init(self, E, st):
        a = ("a", 0)
        z = ("in", "rawdata_size")
        st.add(flow.Z, z, 0)
        st.add(z, flow.Z, WIRESIZES[0])
        st.mem[(a, self.raw)] = (("s", z, 0), 4, ("sbn_frame", self.raw))
        E.caps[(a, off(self.m, "sbn_frame", "rawdata"))] = WIRESIZES[0]
        E.caps[(a, off(self.m, "sbn_frame", "blkdata"))] = WIRESIZES[1]
        return frozenset()

    def prop_syms(self, p):
        return (("in", "rawdata_size"),) + super().prop_syms(p)

    def on_ret(self, E, st, I, val):
        if E.decide(st, "eq", val, ("c", 0)) is False:
            return
        a = ("a", 0)
        c = E.peek(st, ("s", a, self.cmd))
        if c is not None and E.decide(st, "eq", c, ("c", DATA[0])) is False:
            return
        self.rets += 1
        for (s, p), z in SPANS.items():
            pv = E.peek(st, ("s", a, off(self.m, s, p)))
            zv = E.peek(st, ("s", a, off(self.m, s, z)))
            k = ("%s, %s" % (p, z), 0, 0)
            if pv is not None and E.isnull(st, pv) is True:
                if zv is not None and E.const(st, zv) == 0:
                    self.good[k] = where(I)
                else:
                    self.bad.setdefault(k, (I, E.path(st, I), "size without data"))
                continue
            if pv is None and p in ("pdata", "ccb"):
                continue
            if pv is None or zv is None:
                self.bad.setdefault(k, (I, E.path(st, I), "not set for every accepted frame"))
                continue
            ok, why = E.fits(st, pv, zv)
            if ok and st.lo(zv) >= 0:
                self.good[k] = where(I)
            else:
                self.bad.setdefault(k, (I, E.path(st, I), why if not ok else "the size may be negative"))


def check(chk):
    m = chk.nbspd
    WIRESIZES[:] = [off(m, "sbn_frame", "rawdata_size"), off(m, "sbn_frame", "blkdata_size") - off(m, "sbn_frame", "blkdata"),
                    off(m, "nbs1_packet_st", "packet_size")]
    chk.rule = ("every copy from or into a buffer of received data, and every access through an index found in it, lies within the buffer; spans and "
                "sizes kept beside buffers agree with them")
    chk.need(m, "sbn_unpack_frame", "write_memfile")
    allocs = lambda f: {I.id for b in f.blocks for I in b.ins if I.op == "call" and I.x in ("malloc", "calloc", "realloc")}
    keep = set(COPIES) | set(READS) | {"pctldb_send_pce", "sbn_unpack_frame"}
    # the decoder of frames
    f = flat(chk, m, "sbn_unpack_frame", keep - {"sbn_unpack_frame"})
    s = Unpack(chk, m, "sbn_unpack_frame", spans=False)
    s.allocs = allocs(f)
    e = bounds.Engine(m, f, s, mods=chk.ctx.mods(), K=200, KL=8, max_steps=1500000, strict_nsw=True).run()
    if e.truncated or not s.rets:
        raise AnalysisBroken("sbn_unpack_frame")
    report(chk, s, "sbn_unpack_frame")
    # the loops that receive
    roots = ["loop_channel", "slavenet_loop_nbs1", "slavenet_loop_nbs2", "slavein_loop"]
    # whatever installs a buffer or changes its size, and the memory file
    for g in m.funcs():
        for I in g.instrs():
            p = I.ops[1] if I.op == "store" else None
            if p is not None and p.kind == "i" and p.v.op == "gep" and p.v.ops[0].kind == "i" and p.v.ops[0].v.op == "alloca":
                continue          # a descriptor of its own that refers to a buffer of someone else
            if I.op == "store" and flow.Engine.pclass(None, I.ops[1]) in [(a, off(m, a, b)) for (a, b) in OWNED]:
                if g.name not in roots:
                    roots.append(g.name)
    roots.append("write_memfile")
    for r in roots:
        f = flat(chk, m, r, keep - {r})
        s = Spec(chk, m, r)
        s.allocs = allocs(f)
        if r == "write_memfile":
            i0 = s.init

            def init(E, st):
                st.add(flow.Z, ("a", 2), 0)
                st.add(("a", 2), flow.Z, (1 << 31) - 1)
                return frozenset({(("a", 1), ("s", ("a", 2), 0))})
            s.init = init
        e = bounds.Engine(m, f, s, mods=chk.ctx.mods(), K=24, KL=3, max_steps=1500000, strict_nsw=True).run()
        if e.truncated:
            raise AnalysisBroken("state budget exhausted in %s" % r)
        report(chk, s, r)
    chk.atleast("copies and accesses shown", 40)
