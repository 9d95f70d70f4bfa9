"""S03 the ring of spool databases"""
import flow, ops
from util import *
EXPLANATION = ("Path-sensitive analysis of the insertion in, and the truncation of, the ring of spool databases (helpers inlined): "
               "which database is written, when the current one changes, and how the recorded size follows. Assumes a limit "
               "below 1 GiB per database, and the invariant size <= limit that the operations are shown to keep.")
ST = "spoolbdbv_st"
BIG = (1 << 30)


class Ring(flow.Spec):
    """prop: (emptied databases, current database moved, put done but size not yet updated: None/'ok'/'failed',
              value of datasize of the put, size recorded before)"""

    def __init__(self, chk, m, root, ds):
        self.chk, self.m, self.root, self.ds = chk, m, root, ds
        self.o = {k: off(m, ST, k) for k in ("dbv", "wrdb", "Ndb", "n", "maxsize", "size")}
        self.puts, self.truncs, self.moves = set(), set(), set()

    def at(self, f):
        return ("s", ("a", 0), self.o[f])

    def sym(self, f):
        return ("s", ("in", f), 0)

    def init(self, E, st):
        st.add(flow.Z, ("in", "size"), 0)
        st.add(("in", "size"), ("in", "maxsize"), 0)
        st.add(("in", "maxsize"), flow.Z, BIG - 1)
        for f in self.o:
            n = 8 if f in ("dbv", "wrdb") else 4
            st.mem[(("a", 0), self.o[f])] = (self.sym(f), n, (ST, self.o[f]))
        return (frozenset(), False, None, False)

    def prop_syms(self, p):
        return tuple(("in", f) for f in self.o) + tuple(x[1] for x in p[0] if x[0] == "s") + (
            ("op", "add", self.sym("size"), self.ds), ("op", "add", self.ds, self.sym("size")),
            ("op", "sub", self.sym("maxsize"), self.sym("size")),
            ("elt", ("in", "wrdb"), 8), ("elt", ("in", "wrdb"), 0), ("elt", ("in", "dbv"), 8))

    def prop_rename(self, p, mm):
        return (frozenset(flow.subst(x, mm) for x in p[0]),) + p[1:]

    def prop_drop(self, p, sym):
        return (frozenset(x for x in p[0] if not (x[0] == "s" and (x[1] == sym or sym in flow.leaves(x[1])))),) + p[1:]

    def bad(self, E, st, I, key, msg):
        self.chk.violation("%s:%s" % (self.root, key), I.file, I.line, E.f.name, msg, E.path(st, I))

    def cur(self, E, st):
        w = E.peek(st, self.at("wrdb"))
        return w, (self.elt(E, st, w) if w is not None else None)

    @staticmethod
    def elt(E, st, w):
        """content of the array of databases (no operation changes it)"""
        if w[0] == "s" and w[1] in (("in", "wrdb"), ("in", "dbv")):
            return ("s", ("elt", w[1], w[2]), 0)
        return None

    def load_value(self, E, st, I, addr, size, cls):
        if size == 8 and cls is None:
            return self.elt(E, st, addr)
        return None

    def on_call(self, E, st, I, name, args):
        op = ops.db_op(self.m, I)
        p = st.prop
        if op not in ("put", "truncate"):
            return None
        w, d = self.cur(E, st)
        if op == "truncate":
            self.truncs.add(where(I))
            # the database emptied must not be the sentinel at the end of the ring
            v = E.default_call(st, I, name, args)
            db = E.ev(st, I.ops[0])
            a, b = st.copy(), st
            a.prop = (p[0] | {("c", 1) if self.multi or len(p[0]) > 3 else db}, p[1], p[2], p[3])
            b.ne = b.ne | {(v[1], 0)}
            return [(a, ("c", 0)), (b, v)]
        self.puts.add(where(I))
        if d is None or args[0] != d:
            self.bad(E, st, I, "other-db", "the data is written to a database other than the current one")
        if p[1] and args[0] not in p[0]:
            self.bad(E, st, I, "not-emptied", "the next database is written without having been emptied")
        s, n = E.peek(st, self.at("size")), self.ds
        fits = s is not None and self.fits(E, st, s, n)
        if fits:
            self.chk.ok("written only if it fits in the current database", where(I))
        else:
            self.bad(E, st, I, "limit", "data is written that may exceed the limit of the current database")
        v = E.default_call(st, I, name, args)
        a, b = st.copy(), st
        a.prop = (p[0], p[1], s, p[3])
        b.ne = b.ne | {(v[1], 0)}
        return [(a, ("c", 0)), (b, v)]

    def fits(self, E, st, s, n):
        mx = self.sym("maxsize")
        c = E.const(st, s)
        if c is not None:
            return c == 0 and E.decide(st, "sle", n, mx) is True and st.lo(n) >= 0
        t = ("s", ("op", "add", s, n), 0)
        t2 = ("s", ("op", "add", n, s), 0)
        room = ("s", ("op", "sub", mx, s), 0)
        return st.lo(n) >= 0 and (any(E.decide(st, "sle", x, mx) is True for x in (t, t2)) or
                                  E.decide(st, "sle", n, room) is True)

    def on_store(self, E, st, I, addr, val, cls):
        p = st.prop
        if addr[1] != ("a", 0):
            return
        if addr[2] == self.o["size"]:
            old = E.peek(st, addr)
            if E.const(st, val) == 0:
                w, d = self.cur(E, st)
                if p[0]:
                    st.prop = p[:3] + (True,)
                    self.chk.ok("the size is reset only for a database that was emptied", where(I))
                else:
                    self.bad(E, st, I, "reset", "the recorded size is reset although the current database was not emptied")
                return
            good = p[2] is not None and old is not None and (
                val in (("s", ("op", "add", old, self.ds), 0), ("s", ("op", "add", self.ds, old), 0)) or
                (E.const(st, old) == 0 and val == self.ds))
            if good:
                self.chk.ok("the size grows by what was inserted, after it was", where(I))
            else:
                self.bad(E, st, I, "account", "the recorded size changes by something other than what was just inserted")
            st.prop = (p[0], p[1], None, p[3])
        elif addr[2] == self.o["wrdb"]:
            self.moves.add(where(I))
            old = E.peek(st, addr)
            dbv = self.sym("dbv")
            nxt = ("s", old[1], old[2] + 8) if old is not None else None
            first = ("s", dbv[1], 8)
            good = False
            if val == nxt:
                good = True
            elif val == first:
                x = self.elt(E, st, old)
                y = self.elt(E, st, nxt)
                good = (x is not None and E.isnull(st, x)) or (y is not None and E.isnull(st, y)) or self.multi
            elif self.multi and val[0] == "s" and E.root(val[1]) == ("in", "dbv"):
                good = True
            if good:
                self.chk.ok("the current database moves on to the next in the ring", where(I))
            else:
                self.bad(E, st, I, "order", "the current database changes to one that is not the next in the ring")
            st.prop = (p[0], True, p[2], p[3])
        elif addr[2] in (self.o["dbv"], self.o["Ndb"], self.o["maxsize"]):
            self.bad(E, st, I, "geometry", "the ring or its limit is changed by an operation")

    multi = False

    def on_load(self, E, st, I, addr, cls):
        # using the database the ring moved to: it must be a database, not the end marker
        if cls and cls[0] == "__db" and addr[0] == "s":
            base = ("s", addr[1], addr[2] - cls[1])
            w, d = self.cur(E, st)
            if E.nonnull(st, base):
                return
            first = ("s", ("elt", ("in", "dbv"), 8), 0)
            own = ("s", ("elt", ("in", "wrdb"), 0), 0)
            if base in (first, own) or base == d and not st.prop[1] or self.multi:
                st.ne = st.ne | {(base[1], 0)}
                return
            self.bad(E, st, I, "end", "the end marker of the ring can be used as a database")

    def on_ret(self, E, st, I, val):
        p = st.prop
        w, d = self.cur(E, st)
        if p[2] is not None:
            self.bad(E, st, I, "unaccounted", "data inserted is not added to the recorded size")
        if p[1] and val is not None and E.truth(st, val) is not True and not self.multi:
            if d is None or d not in p[0]:
                self.bad(E, st, I, "moved-not-emptied", "success although the database moved to was not emptied")
        if p[3] and not self.multi and (d is None or d not in p[0]):
            self.bad(E, st, I, "reset-other", "the recorded size was reset although the current database was not emptied")
        c = E.peek(st, self.at("size"))
        if p[1] and val is not None and E.truth(st, val) is False and not self.puts and E.const(st, c) != 0:
            self.bad(E, st, I, "stale-size", "the recorded size of the previous database is kept for the emptied one")


class All(Ring):
    multi = True


def check(chk):
    m = chk.nbspd
    mods = chk.ctx.mods()
    chk.rule = ("put only to the current database, only if recorded size + data <= limit, and only into an emptied one after moving; "
                "moving only to the next pointer, or to the first when that is the end marker; the recorded size is reset only "
                "after emptying and grows exactly by what was inserted")
    for root, n, cls in (("spoolbdbv_write2", ("s", ("a", 3), 0), Ring), ("spoolbdbv_truncate_oldest", ("c", 0), Ring),
                         ("spoolbdbv_truncate", ("c", 0), All)):
        chk.need(m, root)
        f = flat(chk, m, root, set())
        s = cls(chk, m, root, n)
        chk.run_flow(f, s, mods=mods)
        chk.count("put sites", len(s.puts))
        chk.count("truncate sites", len(s.truncs))
        chk.count("moves", len(s.moves))
        if not s.truncs:
            raise AnalysisBroken("%s empties no database" % root)
        chk.ok("%s analysed" % root, f.file)
    chk.atleast("put sites", 1)
    chk.atleast("moves", 3)
