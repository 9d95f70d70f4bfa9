"""S04 the index of the file spool is a ring"""
import flow
from util import *
EXPLANATION = ("Path-sensitive analysis of the insertion in, and the restoring of, the index of spooled files: what is deleted, "
               "what is overwritten, and that slot number, offset and pointer stay within the index and move together.")


class Ins(flow.Spec):
    """prop: (old slot content destroyed, new name written)"""

    def __init__(self, chk, m):
        self.chk, self.m = chk, m
        self.o = {k: off(m, "spooldb_st", k) for k in ("numslots", "keysize", "slot", "index", "slotptr", "keys", "destroy_key")}
        self.w = 0
        self.len = {}

    def at(self, f):
        return ("s", ("a", 0), self.o[f])

    def sym(self, f):
        return ("s", ("in", f), 0)

    def init(self, E, st):
        add = st.add
        # the invariant kept by every operation: 0 <= slot < numslots, keysize > 0
        add(flow.Z, ("in", "slot"), 0)
        add(("in", "slot"), ("in", "numslots"), -1)
        add(("in", "numslots"), flow.Z, (1 << 31) - 1)
        add(flow.Z, ("in", "keysize"), -1)
        add(("in", "keysize"), flow.Z, 1 << 20)
        add(flow.Z, ("in", "index"), 0)
        add(("in", "index"), flow.Z, 1 << 30)
        for f in self.o:
            n = 8 if f in ("slotptr", "keys", "destroy_key") else 4
            st.mem[(("a", 0), self.o[f])] = (self.sym(f), n, ("spooldb_st", self.o[f]))
        return (False, False)

    def prop_syms(self, p):
        return tuple(("in", f) for f in self.o)

    def bad(self, E, st, I, key, msg):
        self.chk.violation("spooldb_insert:" + key, I.file, I.line, E.f.name, msg, E.path(st, I))

    def isptr(self, E, st, v):
        return v == self.sym("slotptr")

    def on_call(self, E, st, I, name, args):
        if name is None:
            t = E.ev(st, I.name)
            if t == self.sym("destroy_key"):
                if not self.isptr(E, st, args[0]):
                    self.bad(E, st, I, "destroys-other", "the file deleted is not the one whose slot is taken over")
                elif st.prop[1]:
                    self.bad(E, st, I, "destroy-late", "the old file name is overwritten before the file is deleted")
                else:
                    self.chk.ok("deletes the file recorded in the slot taken over", where(I))
                st.prop = (True, st.prop[1])
                return [(st, E.fresh(st, I))]
        if name in ("strncpy", "strcpy", "memcpy", "memmove", "snprintf", "strlcpy") or name and name.startswith("llvm.memcpy"):
            self.w += 1
            if not self.isptr(E, st, args[0]):
                self.bad(E, st, I, "wrong-slot", "the new name is written in a slot other than the next one")
            else:
                if not st.prop[0]:
                    self.bad(E, st, I, "not-destroyed", "a slot is overwritten without deleting the file it recorded")
                self.chk.ok("the new name goes to the slot whose file was deleted", where(I))
            if name == "strcpy":
                L = None
                for s in set(st.D):
                    pass
            else:
                n = args[1] if name == "snprintf" else args[2]
                if E.decide(st, "sle", n, self.sym("keysize")) is not True or st.lo(n) < 0:
                    self.bad(E, st, I, "size", "a name longer than the slot can be written")
                else:
                    self.chk.ok("the name fits in its slot", where(I))
                if name != "snprintf" and n != self.sym("keysize"):
                    ln = self.len.get(args[1])
                    if ln is None or E.decide(st, "sgt", n, ln) is not True:
                        self.bad(E, st, I, "truncated", "the name is copied without its end: part of the previous name can remain")
                    else:
                        self.chk.ok("the whole name is copied", where(I))
            st.prop = (st.prop[0], True)
            return [(st, E.fresh(st, I))]
        if name == "strlen":
            v = E.fresh(st, I)
            E.rng(st, v, 0, (1 << 30))
            self.len[args[0]] = v
            return [(st, v)]
        return None

    def on_ret(self, E, st, I, val):
        s, i, p = (E.peek(st, self.at(f)) for f in ("slot", "index", "slotptr"))
        if st.prop == (False, False) and s == self.sym("slot") and E.truth(st, val) is True:
            self.chk.ok("a name that is not accepted changes nothing", where(I))
            return
        if not st.prop[1]:
            self.bad(E, st, I, "not-recorded", "the new name is not recorded")
        ks = self.sym("keysize")
        eq = lambda a, b: a is not None and (a == b or E.decide(st, "eq", a, b) is True)
        s0 = self.sym("slot")
        if eq(s, ("c", 0)):
            good = eq(i, ("c", 0)) and p == self.sym("keys") and \
                E.decide(st, "eq", ("s", s0[1], 1), self.sym("numslots")) is True
        else:
            idx_ok = i is not None and i[0] == "s" and i[2] == 0 and i[1][:2] in (("op", "add"), ("op", "mul")) and \
                {i[1][2], i[1][3]} in ({self.sym("index"), ks}, {("s", s0[1], 1), ks})
            ptr_ok = p is not None and p[0] == "s" and p[1][0] == "ix" and p[2] == 0 and \
                ((p[1][1] == ("in", "slotptr") and p[1][3] in (((ks, 1),),)) or
                 (p[1][1] == ("in", "keys") and i is not None and any(p[1][3] == ((x, 1),) for x in (i, ("s", ("op", "zext", i, 32), 0)))))
            good = eq(s, ("s", s0[1], 1)) and idx_ok and ptr_ok and \
                E.decide(st, "slt", s, self.sym("numslots")) is True
        if good:
            self.chk.ok("slot, offset and pointer advance together and wrap at the end", where(I))
        else:
            self.bad(E, st, I, "advance", "slot number, offset and pointer do not advance together to the next slot (or wrap at the end)")


class Rd(flow.Spec):
    def __init__(self, chk, m):
        self.chk, self.m = chk, m
        self.o = {k: off(m, "spooldb_st", k) for k in ("numslots", "keysize", "slot", "index", "slotptr", "keys")}
        self.seen = set()

    def on_store(self, E, st, I, addr, val, cls):
        if addr[1] != ("a", 0):
            return
        g = lambda f: E.peek(st, ("s", ("a", 0), self.o[f]))
        ks, N, keys = g("keysize"), g("numslots"), g("keys")
        bad = lambda k, t: self.chk.violation("spooldb_read:" + k, I.file, I.line, E.f.name, t, E.path(st, I))
        if addr[2] == self.o["slot"]:
            self.seen.add("slot")
            if N is not None and (E.decide(st, "ult", val, N) is True or ("ult", val, N) in (st.note or ()) or self.known(st, val, N)):
                self.chk.ok("restored slot is below the number of slots", where(I))
            else:
                bad("slot", "a saved slot number is restored without checking it against the number of slots")
        elif addr[2] in (self.o["numslots"], self.o["keysize"], self.o["keys"]):
            bad("geometry", "the geometry of the index is changed by restoring a saved one")

    def known(self, st, v, n):
        return False

    def load_value(self, E, st, I, addr, size, cls):
        if cls == ("spooldb_st", self.o["numslots"]):
            v = E.fresh(st, I)
            E.rng(st, v, 0, (1 << 31) - 1)
            return v
        return None

    def on_call(self, E, st, I, name, args):
        if name == "read":
            k = E.peek(st, ("s", ("a", 0), self.o["keys"]))
            if args[1] == k or (k is None and args[1][1] == ("a", 0)):
                self.seen.add("keys")
                n = args[2]
                g = lambda f: E.peek(st, ("s", ("a", 0), self.o[f]))
                # length: saved slots (known not to exceed ours) times the key size (known equal to ours)
                self.n = n
        return None

    def on_ret(self, E, st, I, val):
        pass


def check(chk):
    m = chk.nbspd
    mods = chk.ctx.mods()
    chk.rule = ("insert: delete the file named in the slot, then overwrite that slot within its size, then advance slot, offset "
                "and pointer by one (0 at the end); restore: slot below numslots")
    chk.need(m, "spooldb_insert", "spooldb_read")
    f = flat(chk, m, "spooldb_insert", set())
    s = Ins(chk, m)
    chk.run_flow(f, s, mods=mods)
    chk.count("names written", s.w)
    chk.atleast("names written", 1)
    f = flat(chk, m, "spooldb_read", set())
    r = Rd(chk, m)
    chk.run_flow(f, r, mods=mods)
    if "slot" not in r.seen:
        raise AnalysisBroken("spooldb_read restores no slot")
