"""Product processing: one automaton for the processor thread, from which
R01-R04 take their rules.  It follows each dequeued product until the next
dequeue (or return) and records what was decided and done for it."""
import re, os
from collections import namedtuple
import flow
from util import *

P = namedtuple("P", "p fc orig seq db match look attempt good bad fm sm fs ss putok putfail pack sdb")
STORES = ("save_memfile", "save_memfile_skip", "nbsp_mspoolbdb_insert", "nbsp_cspoolbdb_insert")
DEQ = "eopen_pctl_outputpce"
KEEP = set(STORES) | {DEQ, "close_pctl_outputpce", "write_memfile", "get_memframe", "unz", "spooldb_insert", "nbspqt_snd",
                      "nbsp_rtxdb_get", "nbsp_rtxdb_put", "nbsp_rtxdb_truncate", "nbsp_rtxdb_log_err", "uwildregex_match",
                      "nbsfp_pack_fpath", "reopen_pctl_outputmf", "get_quit_flag", "e_report_qstate", "file_delete",
                      "nbspq_set_quota_status1", "q_log_err", "spooldb_read", "spooldb_write", "spooldb_init", "spooldb_destroy",
                      "file_exists", "create_path_dirs"}


SPT = ("cfg", "spooltype")


def macros(chk, pat):
    """integer macros of the daemon's headers whose name matches"""
    r = {}
    d = os.path.join(chk.ctx.build.src, "src")
    for sub in ("", "libconnth"):
        for f in sorted(os.listdir(os.path.join(d, sub))):
            if f.endswith(".h"):
                for m in re.finditer(r"^\s*#\s*define\s+(%s)\s+(-?\d+)\b" % pat, open(os.path.join(d, sub, f), errors="replace").read(), re.M):
                    r[m.group(1)] = int(m.group(2))
    return r


def qindex(chk, name):
    r = macros(chk, name)
    if name not in r:
        raise AnalysisBroken("macro %s not found" % name)
    return r[name]


class Proc(flow.Spec):
    """rule: name of the property whose rules report"""

    def __init__(self, chk, m, rule, spooltype=None):
        self.chk, self.rule, self.spooltype = chk, rule, spooltype
        F = lambda f: off(m, "pctl_element_st", f)
        self.o = {f: F(f) for f in ("f_complete", "orig_seq_number", "seq_number", "fname")}
        G = lambda f: off(m, "nbsp_globals", f)
        self.g = {f: G(f) for f in ("rtxdb", "filterq_regex", "serverq_regex", "rtxdb_regex",
                                    "f_filter_thread_created", "f_server_thread_created")}
        self.mfsize = off(m, "memfile_st", "size")
        self.FQ, self.SQ = qindex(chk, "FILTER_Q_INDEX"), qindex(chk, "SERVER_Q_INDEX")
        self.spt = [v for k, v in macros(chk, r"SPOOLTYPE_\w+").items()]
        if not self.spt:
            raise AnalysisBroken("spool types not found")
        self.g["spooltype"] = G("spooltype")
        self.seen = {}

    # ---- reporting
    def rep(self, rule, E, st, I, key, msg, good, okmsg=None):
        if rule != self.rule:
            return
        if good:
            self.chk.ok(okmsg or ("not: " + msg), where(I))
        else:
            self.chk.violation("processor:" + key, I.file, I.line, E.f.name, msg, E.path(st, I))

    def saw(self, what, I):
        self.seen.setdefault(what, set()).add(where(I))

    # ---- the product's fields, whatever else the path forgets
    def init(self, E, st):
        st.add(flow.Z, SPT, -min(self.spt))
        st.add(SPT, flow.Z, max(self.spt))
        return None

    def prop_syms(self, p):
        return (SPT,) + tuple(v[1] for v in (p.p, p.fc, p.orig, p.seq) if v and v[0] == "s") if p else (SPT,)

    def prop_rename(self, p, m):
        return P(*[flow.subst(x, m) if isinstance(x, tuple) else x for x in p]) if p else p

    def prop_drop(self, p, sym):
        return p

    def load_value(self, E, st, I, addr, size, cls):
        p = st.prop
        if cls == ("nbsp_globals", self.g["f_filter_thread_created"]) or cls == ("nbsp_globals", self.g["f_server_thread_created"]):
            return ("c", 1)
        if cls == ("nbsp_globals", self.g["spooltype"]):
            return ("s", SPT, 0) if self.spooltype is None else ("c", self.spooltype)
        if not p:
            return None
        if cls == ("nbsp_globals", self.g["rtxdb"]):
            if not p.db:
                return ("c", 0)
            v = E.fresh(st, I)
            E.rng(st, v, 1, None)
            return v
        if addr[1] == p.p[1]:
            for f, v in (("f_complete", p.fc), ("orig_seq_number", p.orig), ("seq_number", p.seq)):
                if addr[2] == p.p[2] + self.o[f]:
                    return v
        return None

    def on_load(self, E, st, I, addr, cls):
        if st.prop and cls == ("memfile_st", self.mfsize) and not st.prop.attempt:
            st.prop = st.prop._replace(attempt=True)

    def complete(self, E, st):
        p = st.prop
        return E.truth(st, p.fc)

    # ---- end of one product
    def settle(self, E, st, I):
        p = st.prop
        if not p:
            return
        c = self.complete(E, st)
        isrtx = E.const(st, p.orig) != 0
        r = lambda *a: self.rep(a[0], E, st, I, *a[1:])
        if c is False:
            if p.match and p.db:
                r("R03", "fail-not-recorded", "an incomplete product is discarded without recording it as failed", p.putfail,
                  "incomplete product recorded as failed")
        if c is True or (c is None and (p.good or p.attempt)):
            skip = p.look == "ok" or (isrtx and p.match and not p.db)
            if not skip:
                r("R03", "complete-dropped",
                  "a complete product whose original was not received (or that is no retransmission) is discarded unprocessed",
                  p.attempt or p.bad, "complete product processed unless its original was received")
            stored = bool(p.good) and not p.bad
            if stored:
                if p.match and p.db:
                    r("R03", "ok-not-recorded", "a stored product is not recorded as received", p.putok,
                      "stored product recorded as received")
                if p.pack is not False:
                    r("R04", "filter-not-queued", "a stored product that the filter pattern accepts is not queued for the filters",
                      not (p.fm is None or p.fm == 0) or p.fs, "stored and accepted product queued for the filters")
                    r("R04", "server-not-queued", "a stored product that the server pattern accepts is not queued for the clients",
                      not (p.sm is None or p.sm == 0) or p.ss, "stored and accepted product queued for the clients")

    def on_ret(self, E, st, I, val):
        self.settle(E, st, I)

    # ---- events
    def split(self, E, st, I, good):
        """(state in which the call returned 0, state in which it did not)"""
        a, b = st.copy(), st
        v = E.fresh(b, I)
        b.ne = b.ne | {(v[1], 0)}
        return (a, ("c", 0)), (b, v)

    def on_call(self, E, st, I, name, args):
        p = st.prop
        if name == DEQ:
            self.settle(E, st, I)
            st.prop = None
            E.default_call(st, I, name, args)
            b = st.copy()
            out = []
            # the status argument is written by the callee: 0 means an element was dequeued
            for orig in (False, True):
                for db in (False, True):
                    a = st.copy()
                    for f in ("rtxdb", "f_filter_thread_created", "f_server_thread_created"):
                        a.mem.pop((("g", "g"), self.g[f]), None)
                    q = E.fresh(a, I)
                    E.rng(a, q, 1, None)
                    E.store(a, args[2], ("c", 0), 4, None)
                    fc, seq = E.fresh(a, I, "fc"), E.fresh(a, I, "seq")
                    ov = ("c", 0)
                    if orig:
                        ov = E.fresh(a, I, "orig")
                        a.ne = a.ne | {(ov[1], 0)}
                    a.prop = P(q, fc, ov, seq, db, None, None, False, frozenset(), False, None, None, False, False,
                               False, False, None, False)
                    out.append((a, q))
            s = E.fresh(b, I, "st")
            b.ne = b.ne | {(s[1], 0)}
            E.store(b, args[2], s, 4, None)
            out.append((b, ("c", 0)))
            self.saw("dequeue", I)
            return out
        if p is None:
            if name in STORES + ("spooldb_insert", "nbspqt_snd"):
                self.rep("R01", E, st, I, name + "-no-product", "%s reached without a dequeued product" % name, False)
            return None
        stored = bool(p.good) and not p.bad and (not ("nbsp_cspoolbdb_insert" in p.good) or len(p.good) > 1)
        if name in STORES:
            self.saw("store", I)
            self.rep("R01", E, st, I, name, "%s reached for a product that is not known to be complete" % name,
                     self.complete(E, st) is True, "stored only when complete")
            self.rep("R03", E, st, I, "stored-although-received",
                     "a retransmission is stored although its original was received", p.look != "ok",
                     "retransmission of a received product never stored")
            if p.match is None or p.match:
                self.rep("R03", E, st, I, "no-lookup",
                         "a retransmission is stored without looking up the fate of its original",
                         p.look is not None or not p.db or E.const(st, p.orig) == 0, "original looked up before storing")
            E.default_call(st, I, name, args)
            (a, va), (b, vb) = self.split(E, st, I, None)
            a.prop = p._replace(attempt=True, good=p.good | {name})
            b.prop = p._replace(attempt=True, bad=True)
            return [(a, va), (b, vb)]
        if name in ("write_memfile", "get_memframe"):
            E.default_call(st, I, name, args)
            a, b = st.copy(), st
            va, vb = E.fresh(a, I), E.fresh(b, I)
            if name == "write_memfile":
                E.rng(a, va, 0, None)
                vb = ("c", -1)
            else:
                E.rng(a, va, 1, None)
                E.rng(b, vb, None, 0)
            a.prop = p._replace(attempt=True)
            b.prop = p._replace(attempt=True, bad=True)
            return [(a, va), (b, vb)]
        if name == "unz":
            E.default_call(st, I, name, args)
            (a, va), (b, vb) = self.split(E, st, I, None)
            a.prop = p._replace(attempt=True)
            b.prop = p._replace(attempt=True, bad=True)
            return [(a, va), (b, vb)]
        if name == "reopen_pctl_outputmf":
            st.prop = p._replace(attempt=True)
            return None
        if name in ("create_path_dirs", "open"):
            E.default_call(st, I, name, args)
            a, b = st.copy(), st
            if name == "open":
                va, vb = E.fresh(a, I), ("c", -1)
                E.rng(a, va, 0, None)
            else:
                va, vb = ("c", 0), E.fresh(b, I)
                b.ne = b.ne | {(vb[1], 0)}
            a.prop = p._replace(attempt=True)
            b.prop = p._replace(attempt=True, bad=True)
            return [(a, va), (b, vb)]
        if name == "nbsfp_pack_fpath":
            E.default_call(st, I, name, args)
            (a, va), (b, vb) = self.split(E, st, I, None)
            a.prop = p._replace(pack=True)
            b.prop = p._replace(pack=False)
            return [(a, va), (b, vb)]
        if name == "spooldb_insert":
            self.saw("index", I)
            self.rep("R01", E, st, I, name, "the spool index is updated for a product not known to be complete",
                     self.complete(E, st) is True, "indexed only when complete")
            self.rep("R02", E, st, I, "indexed-before-stored", "a product is entered in the spool index although it was not stored",
                     stored, "indexed only after being stored")
            return None
        if name == "nbspqt_snd":
            t = E.const(st, args[1])
            self.saw("queue", I)
            q = {self.FQ: "filter", self.SQ: "server"}.get(t)
            self.rep("R01", E, st, I, "queue", "queued although not known to be complete",
                     self.complete(E, st) is True, "queued only when complete")
            self.rep("R02", E, st, I, "queued-before-stored", "a product is queued although it was not stored", stored,
                     "queued only after being stored")
            mt = {"filter": p.fm, "server": p.sm}.get(q)
            self.rep("R04", E, st, I, "%s-gate" % q,
                     "a product is queued for the %s although the %s pattern did not accept it" % (q, q), mt == 0,
                     "queued (%s) only if the pattern accepted it" % q)
            st.prop = p._replace(fs=p.fs or q == "filter", ss=p.ss or q == "server")
            return None
        if name == "uwildregex_match":
            E.default_call(st, I, name, args)
            which = None
            for f in ("filterq_regex", "serverq_regex", "rtxdb_regex"):
                if E.peek(st, ("s", ("g", "g"), self.g[f])) == args[0]:
                    which = f
            self.saw("match " + str(which), I)
            if which is None:
                return None
            out = []
            for c in (0, 1, -1):
                s = st.copy()
                if which == "rtxdb_regex":
                    s.prop = p._replace(match=(c == 0))
                elif which == "filterq_regex":
                    s.prop = p._replace(fm=c)
                else:
                    s.prop = p._replace(sm=c)
                out.append((s, ("c", c)))
            return out
        if name == "nbsp_rtxdb_get":
            E.default_call(st, I, name, args)
            self.saw("lookup", I)
            self.rep("R03", E, st, I, "lookup-key", "the fate of the original is looked up under another sequence number",
                     E.decide(st, "eq", args[1], p.orig) is True, "original looked up by its sequence number")
            out = []
            for look, val in (("ok", ("c", 0)), ("fail", ("c", 1))):
                s = st.copy()
                E.store(s, args[2], val, 4, None)
                s.prop = p._replace(look=look)
                out.append((s, ("c", 0)))
            v = E.fresh(st, I)
            st.ne = st.ne | {(v[1], 0)}
            st.prop = p._replace(look="none")
            out.append((st, v))
            return out
        if name == "nbsp_rtxdb_put":
            v = E.const(st, args[2])
            self.saw("record", I)
            self.rep("R03", E, st, I, "record-key", "the outcome is recorded under another sequence number",
                     E.decide(st, "eq", args[1], p.seq) is True, "outcome recorded for the product's own number")
            if v == 0:
                self.rep("R02", E, st, I, "ok-before-stored",
                         "a product is recorded as received although it was not stored (nor was its original received)",
                         stored or p.look == "ok", "recorded as received only after being stored")
                self.rep("R03", E, st, I, "ok-incomplete", "an incomplete product is recorded as received",
                         self.complete(E, st) is True, "only complete products recorded as received")
                st.prop = p._replace(putok=True)
            else:
                self.rep("R03", E, st, I, "fail-value", "the recorded outcome is not one of received/failed", v == 1,
                         "recorded outcome is received or failed")
                st.prop = p._replace(putfail=True)
            return None
        return None


def run(chk, rule):
    m, mods = chk.nbspd, chk.ctx.mods()
    chk.need(m, *(set(STORES) | {DEQ, "nbspqt_snd", "nbsp_rtxdb_get", "nbsp_rtxdb_put", "uwildregex_match", "spooldb_insert"}))
    direct = {f.name for f in m.funcs() if any(True for _ in f.calls(DEQ))}
    clo = callers_closure(m, [DEQ])
    roots = set()
    for r in thread_roots(m):
        if r in direct:
            roots.add(r)
        elif r in clo:
            roots |= {I.x for I in m.func(r).calls() if I.x in clo}
    chk.count("processing roots", len(roots))
    chk.atleast("processing roots", 1)
    s = None
    for r in sorted(roots):
        f = flat(chk, m, r, KEEP)
        seen = {}
        for t in (None,) if rule == "R01" else sorted({v for k, v in macros(chk, r"SPOOLTYPE_\w+").items() if not k.endswith("_VAL")}):
            s = Proc(chk, m, rule, t)
            chk.run_flow(f, s, mods=mods, max_steps=6000000, K=6 if not chk.thorough else 24, KL=2)
            for k, v in s.seen.items():
                seen.setdefault(k, set()).update(v)
        for k, v in seen.items():
            chk.count(k + " sites", len(v))
    for k in ("dequeue", "store", "index", "queue", "lookup", "record"):
        chk.atleast(k + " sites", 1)
    return s
