"""S01 storage failures are never reported as success"""
import flow, ops
from util import *
EXPLANATION = ("Path-sensitive typestate over the storage functions, with everything they call inlined: each write, database "
               "method and allocation is split into its outcomes (complete, short, failed); a return of success with an "
               "outcome that was not made good, or without the complete content having been handed over, is a violation.")

# name, content pointer and length it must hand over: ('field', arg, struct, pfield, sizefield, skiparg) | ('args', p, n) | None
FILES = [("save_memfile", 1, None), ("save_memfile_skip", 1, 2)]
INSERTS = [("nbsp_mspoolbdb_insert", 1, 2), ("nbsp_cspoolbdb_insert", 1, 2)]


def isdiff(v, a, b):
    """v is a - b"""
    if b[0] == "c" and a[0] == "s":
        return v == ("s", a[1], a[2] - b[1])
    return v[0] == "s" and v[2] == 0 and v[1][:2] == ("op", "sub") and v[1][2] == a and v[1][3] == b


class W(ops.OpSpec):
    """prop = (outstanding failure or None, frozenset of done tags, last short position)"""

    def __init__(self, chk, m, root, expect=None, need=1):
        super().__init__(chk, m)
        self.root, self.expect, self.need = root, expect, need

    def init(self, E, st):
        return (None, frozenset())

    def prop_syms(self, p):
        return ()

    def prop_rename(self, p, mm):
        return p

    def load_value(self, E, st, I, addr, size, cls):
        if cls and cls[0] == "memfile_st" and size == 8 and self.m.field(*cls) in ("size", "allocsize", "maxallocsize", "nread"):
            v = E.fresh(st, I)
            E.rng(st, v, 0, None)
            return v
        return None

    @staticmethod
    def tag(E, st, v):
        """which object is written: its address, or the field it was loaded from"""
        if v[0] != "s":
            return v
        r = E.root(v[1])
        for k, x in st.mem.items():
            if x[0][0] == "s" and E.root(x[0][1]) == r:
                return ("field", k[1])
        return r if r[0] in ("a", "al", "g") else "other"

    def ok(self, p, tag):
        d = p[1] | {tag}
        return (None, d if len(d) < 4 else p[1])

    def on_call(self, E, st, I, name, args):
        p = st.prop
        w = where(I)
        if name in ("write", "pwrite", "fwrite"):
            self.sites[w] = "write"
            buf, n = (args[1], args[2]) if name != "fwrite" else (args[0], args[2])
            if p[0] is None and self.expect and not p[1]:
                eb, en = self.expect(E, st)
                good = eb is not None and eb == buf and (isdiff(n, *en) if isinstance(en, list) else
                                                         en == n or E.decide(st, "eq", en, n) is True)
                if good:
                    self.chk.ok("the write hands over the complete content", w)
                else:
                    self.chk.violation(self.root + ":content", I.file, I.line, self.root,
                                       "the data written is not the complete content (from its start plus the skipped part)",
                                       E.path(st, I))
            done = self.ok(p, self.tag(E, st, buf))
            k = 2
            return self.fork(E, st, I, name, args, [
                ("full", done, k), ("short", ("a short write", p[1]), k), ("neg", ("a failed write", p[1]))])
        if name in ("open", "fopen", "creat"):
            self.sites[w] = "open"
            v = E.fresh(st, I)
            a, b = st.copy(), st
            if name == "fopen":
                E.rng(a, v, 1, None)
                vb = ("c", 0)
            else:
                E.rng(a, v, 0, None)
                vb = ("c", -1)
            b.prop = ("a failed open", p[1])
            return [(a, v), (b, vb)]
        if name in ("realloc", "malloc", "calloc"):
            self.sites[w] = "alloc"
            v = E.fresh(st, I)
            a, b = st.copy(), st
            E.rng(a, v, 1, None)
            b.prop = ("a failed allocation", p[1])
            return [(a, v), (b, ("c", 0))]
        op = ops.db_op(self.m, I)
        if op in ("put", "truncate"):
            self.sites[w] = op
            if op == "put":
                return self.fork(E, st, I, name, args, [("zero", self.ok(p, ("c", 0))), ("nonzero", ("a failed database put", p[1]))])
            return self.fork(E, st, I, name, args, [("zero", p), ("nonzero", ("a failed truncate", p[1]))])
        return None

    def empty(self, E, st):
        if not self.expect:
            return False
        b, n = self.expect(E, st)
        return n is not None and not isinstance(n, list) and st.hi(n) <= 0

    def on_ret(self, E, st, I, val):
        p = st.prop
        t = E.truth(st, val) if val is not None else False
        if t is True:
            self.chk.ok("failure reported", "%s -> %s" % (self.root, where(I)))
            return
        if p[0]:
            self.chk.violation(self.root + ":" + p[0].replace(" ", "-"), I.file, I.line, self.root,
                               "%s can be reported as success" % p[0], E.path(st, I))
        elif len(p[1]) < self.need and not self.empty(E, st) and not (self.root == "write_memfile" and st.hi(("s", ("a", 2), 0)) <= 0):
            self.chk.violation(self.root + ":nothing-stored", I.file, I.line, self.root,
                               "success can be reported without storing everything", E.path(st, I))
        else:
            self.chk.ok("success only after every operation completed", "%s -> %s" % (self.root, where(I)))


def check(chk):
    m = chk.nbspd
    mods = chk.ctx.mods()
    chk.rule = ("on every path returning success: no write was short or failed, no database put failed, no allocation or open "
                "failed, without being made good; and the content handed over is the complete buffer")
    op, osz = off(m, "memfile_st", "p"), off(m, "memfile_st", "size")

    def run(root, expect=None, need=1, keep=()):
        chk.need(m, root)
        f = flat(chk, m, root, set(keep))
        s = W(chk, m, root, expect, need)
        chk.run_flow(f, s, mods=mods)
        chk.count("operations that can fail", len(s.sites))
        if not s.sites:
            raise AnalysisBroken("%s has no operation that can fail" % root)

    for root, a, skip in FILES:
        def expect(E, st, a=a, skip=skip):
            buf = E.peek(st, ("s", ("a", a), op))
            n = E.peek(st, ("s", ("a", a), osz))
            if buf is None or n is None:
                return None, None
            if skip is not None:
                k = ("s", ("a", skip), 0)
                buf2 = ("s", ("ix", buf[1], buf[2], ((k, 1),)), 0)
                return buf2, [n, k]
            return buf, n
        run(root, expect)
    for root, dp, dn in INSERTS:
        run(root)
    run("spooldb_write", None, 2)
    run("nbsp_rtxdb_put")
    run("qdb_snd")
    run("pctldb_snd")
    run("pctlmfdb_snd")

    class M(W):
        def on_call(self, E, st, I, name, args):
            if name in ("memcpy", "memmove") or name and name.startswith(("llvm.memcpy", "llvm.memmove")):
                st.prop = self.ok(st.prop, ("c", 1))
                E.default_call(st, I, name, args)
                return [(st, ("c", 0))]
            return super().on_call(E, st, I, name, args)
    f = flat(chk, m, "write_memfile", set())
    s = M(chk, m, "write_memfile")
    chk.run_flow(f, s, mods=mods)
    chk.count("operations that can fail", len(s.sites))
    chk.atleast("operations that can fail", 14)
