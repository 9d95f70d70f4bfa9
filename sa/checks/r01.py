"""R01 only complete products are released"""
import flow, proc
from util import *
EXPLANATION = ("Path-sensitive typestate on the flattened frame processors (noaaport frames and master-server blocks) "
               "and on the flattened processor thread: where a product is marked complete, where its fragment counter "
               "advances, and where it is stored or queued.")

FEEDS = [("sbnframeproc", [("sbn_frame", ("pdh", "block_number"))], 0),
         ("slavenbsproc", [("nbs1_packet_st", ("block_number",))], -1)]
WRITERS = ("write_memfile", "write_memframe")


class Feed(flow.Spec):
    """prop: (a fragment write failed, completed (0 no, 1 by this path), fragments accepted)"""

    def __init__(self, chk, m, name, blockoffs, bias, modname):
        self.chk, self.m, self.name = chk, m, name
        self.o = {f: off(m, "pctl_element_st", f) for f in ("f_complete", "num_fragments", "recv_fragments", "seq_number")}
        self.blockoffs, self.bias = blockoffs, bias
        self.seen = {}

    def init(self, E, st):
        return (False, False, False, False)   # failed write, complete set, counted, written

    def field(self, cls, f):
        return cls == ("pctl_element_st", self.o[f])

    def on_store(self, E, st, I, addr, val, cls):
        chk, n = self.chk, self.name
        base = lambda f: ("s", addr[1], addr[2] - cls[1] + self.o[f])
        if self.field(cls, "f_complete"):
            if E.const(st, val) == 0:
                st.prop = (st.prop[0], False) + st.prop[2:]
                return
            self.seen.setdefault("complete", set()).add(where(I))
            nf, rf = E.peek(st, base("num_fragments")), E.peek(st, base("recv_fragments"))
            good = nf is not None and rf is not None and E.decide(st, "sle", nf, rf) is True
            sq = E.peek(st, base("seq_number"))
            if not good:
                chk.violation(n + ":complete-without-all-fragments", I.file, I.line, n,
                              "product marked complete on a path where received < expected fragments is possible", E.path(st, I))
            else:
                chk.ok("marked complete only with all fragments received", where(I))
            if st.prop[0]:
                chk.violation(n + ":complete-after-failed-save", I.file, I.line, n,
                              "product marked complete after a fragment could not be saved", E.path(st, I))
            if st.prop[2] and not st.prop[3]:
                chk.violation(n + ":complete-without-save", I.file, I.line, n,
                              "product marked complete although its last fragment was counted but not saved", E.path(st, I))
            st.prop = (st.prop[0], True) + st.prop[2:]
        elif self.field(cls, "seq_number"):
            if E.const(st, val) == 0:
                st.prop = (st.prop[0], False) + st.prop[2:]
        elif self.field(cls, "recv_fragments"):
            c = E.const(st, val)
            if c == 0:
                return
            old = E.peek(st, addr)
            blk = [E.peek(st, ("s", ("a", 0), o)) for o in self.blockoffs]
            good = False
            if old is not None and E.decide(st, "eq", val, ("s", old[1], old[2] + 1) if old[0] == "s" else ("c", old[1] + 1)):
                for b in blk:
                    if b is None:
                        continue
                    bb = ("s", b[1], b[2] + self.bias) if b[0] == "s" else ("c", b[1] + self.bias)
                    if E.decide(st, "eq", old, bb) is True:
                        good = True
            self.seen.setdefault("count", set()).add(where(I))
            if not good:
                chk.violation(n + ":count", I.file, I.line, n,
                              "fragment counter advances although the fragment is not known to be the next one", E.path(st, I))
            else:
                chk.ok("counter advances only for the next fragment in sequence", where(I))
            st.prop = (st.prop[0], st.prop[1], True, False)

    def on_call(self, E, st, I, name, args):
        if name in WRITERS:
            a, b = st.copy(), st
            self.seen.setdefault("write", set()).add(where(I))
            if not st.prop[2]:
                self.chk.violation(self.name + ":save-out-of-sequence", I.file, I.line, self.name,
                                   "a fragment is saved although it was not accepted as the next one in sequence", E.path(st, I))
            else:
                self.chk.ok("fragment saved only after being accepted in sequence", where(I))
            E.havoc(a, args[:1], E.mods.get(name, set()))
            E.havoc(b, args[:1], E.mods.get(name, set()))
            va, vb = E.fresh(a, I), E.fresh(b, I)
            a.add(flow.Z, va[1], 0)
            b.add(vb[1], flow.Z, -1)
            a.prop = a.prop[:3] + (True,)
            b.prop = (True,) + b.prop[1:]
            return [(a, va), (b, vb)]
        return None

    def on_ret(self, E, st, I, val):
        if st.prop[1]:
            self.chk.violation(self.name + ":complete-left-open", I.file, I.line, self.name,
                               "a completed product stays open for further fragments", E.path(st, I))


def check(chk):
    m = chk.nbspd
    mods = chk.ctx.mods()
    chk.rule = ("f_complete is stored non-zero only where received >= expected fragments, no save failed; the counter only "
                "advances by one when block number == counter; spool and queue calls only with f_complete != 0")
    chk.need(m, "eopen_pctl_outputpce", "pctldb_send_pce", *[f[0] for f in FEEDS])
    for name, fields, bias in FEEDS:
        keep = set(WRITERS) | {"pctldb_send_pce", "split_wmo_header", "sbn_unpack_frame", "np_regex_match", "savez_regex_match",
                               "file_exists", "adjust_memfile_size", "open_memfile", "close_memfile"}
        f = flat(chk, m, name, keep)
        s = Feed(chk, m, name, [off(m, st, *fs) for st, fs in fields], bias, name)
        chk.run_flow(f, s, mods=mods)
        for k in ("complete", "count", "write"):
            chk.count("%s sites" % k, len(s.seen.get(k, ())))
    chk.atleast("complete sites", 1)
    chk.atleast("count sites", 1)
    chk.atleast("write sites", 2)
    # who else marks a product complete?
    allowed = set()
    for name, _, _ in FEEDS:
        allowed |= callees_closure(m, [name])
    o = off(m, "pctl_element_st", "f_complete")
    for f in m.funcs():
        for I in f.instrs():
            if I.op == "store" and flow.Engine.pclass(None, I.ops[1]) == ("pctl_element_st", o):
                if f.name not in allowed and not (I.ops[0].kind == "c" and I.ops[0].v == 0):
                    chk.violation("%s:marks-complete" % f.name, I.file, I.line, f.name,
                                  "marks a product complete outside the frame processors")
    proc.run(chk, "R01")
