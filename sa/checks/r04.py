"""R04 configured selection patterns"""
import flow, proc
from util import *
EXPLANATION = ("Path-sensitive typestate with each pattern match split into its answers: (1) the flattened processor thread, "
               "(2) the packet handlers of the two fileless slaves, (3) the start of a product in both frame processors.")


class Slave(flow.Spec):
    """prop: (filter match, server match, sent filter, sent server)"""

    def __init__(self, chk, m):
        self.chk = chk
        self.g = {f: off(m, "nbsp_globals", f) for f in ("filterq_regex", "serverq_regex",
                                                         "f_filter_thread_created", "f_server_thread_created")}
        self.Q = {proc.qindex(chk, "FILTER_Q_INDEX"): 0, proc.qindex(chk, "SERVER_Q_INDEX"): 1}
        self.n = set()
        self.m = set()

    def init(self, E, st):
        return (None, None, False, False)

    def load_value(self, E, st, I, addr, size, cls):
        if cls in (("nbsp_globals", self.g["f_filter_thread_created"]), ("nbsp_globals", self.g["f_server_thread_created"])):
            return ("c", 1)

    def on_call(self, E, st, I, name, args):
        if name == "uwildregex_match":
            E.default_call(st, I, name, args)
            k = None
            for i, f in enumerate(("filterq_regex", "serverq_regex")):
                if E.peek(st, ("s", ("g", "g"), self.g[f])) == args[0]:
                    k = i
            if k is None:
                return None
            self.m.add(where(I) + str(k))
            out = []
            for c in (0, 1, -1):
                s = st.copy()
                s.prop = s.prop[:k] + (c,) + s.prop[k + 1:]
                out.append((s, ("c", c)))
            return out
        if name == "nbspqt_snd":
            k = self.Q.get(E.const(st, args[1]))
            nm = {0: "filter", 1: "server"}.get(k, "unknown")
            self.n.add(where(I) + nm)
            if k is None or st.prop[k] != 0:
                self.chk.violation("%s:%s-gate" % (E.f.name, nm), I.file, I.line, E.f.name,
                                   "a product is queued for the %s although the %s pattern did not accept it" % (nm, nm), E.path(st, I))
            else:
                self.chk.ok("queued (%s) only if the pattern accepted it" % nm, where(I))
            if k is not None:
                st.prop = st.prop[:2 + k] + (True,) + st.prop[3 + k:]
        return None

    def on_ret(self, E, st, I, val):
        for k, nm in ((0, "filter"), (1, "server")):
            if (st.prop[k] is None or st.prop[k] == 0) and not st.prop[2 + k]:
                self.chk.violation("%s:%s-not-queued" % (E.f.name, nm), I.file, I.line, E.f.name,
                                   "a product that the %s pattern accepts is not queued for it" % nm, E.path(st, I))
            else:
                self.chk.ok("accepted product queued (%s)" % nm, E.f.name)


class Start(flow.Spec):
    """prop: result of the start pattern for the product in this call (None: not asked), product open"""

    def __init__(self, chk, m, name):
        self.chk, self.name = chk, name
        self.seq = off(m, "pctl_element_st", "seq_number")
        self.unz = off(m, "pctl_element_st", "saveunz_flag")
        self.np = off(m, "nbsp_globals", "np_regex")
        self.savez = off(m, "nbsp_globals", "savez_regex")
        self.asked, self.opened = set(), set()

    def init(self, E, st):
        return (None, False, None)

    def on_store(self, E, st, I, addr, val, cls):
        if cls == ("pctl_element_st", self.seq):
            if E.const(st, val) == 0:
                st.prop = (None, False, None)
            else:
                self.opened.add(where(I))
                st.prop = (st.prop[0], True, None)
        elif cls == ("pctl_element_st", self.unz) and st.prop[1] and E.const(st, val) != 0:
            self.chk.count("uncompress decisions")
            if st.prop[2] != 1:
                self.chk.violation("%s:saveunz-gate" % self.name, I.file, I.line, self.name,
                                   "a product is marked for uncompressed storage although the keep-compressed pattern did not reject it",
                                   E.path(st, I))
            else:
                self.chk.ok("uncompressed only if the keep-compressed pattern rejects it", where(I))

    def on_call(self, E, st, I, name, args):
        if name != "uwildregex_match":
            return None
        which = None
        for k, o in ((0, self.np), (2, self.savez)):
            if E.peek(st, ("s", ("g", "g"), o)) == args[0]:
                which = k
        E.default_call(st, I, name, args)
        if which is None:
            return None
        self.asked.add("%s%d" % (where(I), which))
        out = []
        for c in (0, 1, -1):
            s = st.copy()
            s.prop = s.prop[:which] + (c,) + s.prop[which + 1:]
            out.append((s, ("c", c)))
        return out

    def on_ret(self, E, st, I, val):
        if st.prop[1]:
            if st.prop[0] is None or st.prop[0] == 1:
                self.chk.violation("%s:start-gate" % self.name, I.file, I.line, self.name,
                                   "reception of a product is started although the selection pattern %s" %
                                   ("was not consulted" if st.prop[0] is None else "rejected it"), E.path(st, I))
            else:
                self.chk.ok("reception starts only for products the pattern does not reject", self.name)


def check(chk):
    m, mods = chk.nbspd, chk.ctx.mods()
    chk.rule = ("a queue insertion is reached only where that queue's pattern returned 'match' for this product, and is "
                "reached whenever it did; a product stays open only if the selection pattern did not reject it")
    proc.run(chk, "R04")
    n = q = 0
    for r in ("slavefpproc", "slaveinproc"):
        f = flat(chk, m, r, {"uwildregex_match", "nbspqt_snd", "e_report_qstate", "q_log_err", "nbspq_set_quota_status1"})
        s = Slave(chk, m)
        chk.run_flow(f, s, mods=mods)
        n += len(s.n)
        q += len(s.m)
    chk.count("slave queue sites", n)
    chk.count("slave pattern sites", q)
    chk.atleast("slave queue sites", 2)
    for name in ("sbnframeproc", "slavenbsproc"):
        keep = {"pctldb_send_pce", "write_memfile", "write_memframe", "uwildregex_match", "file_exists", "adjust_memfile_size",
                "open_memfile", "close_memfile", "sbn_unpack_frame"}
        f = flat(chk, m, name, keep)
        s = Start(chk, m, name)
        chk.run_flow(f, s, mods=mods, K=8, KL=3)
        chk.count("start sites", len(s.opened))
        chk.count("start pattern sites", len(s.asked))
    chk.atleast("start sites", 2)
    chk.atleast("start pattern sites", 2)
