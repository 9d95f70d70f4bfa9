"""N01 a stream that broke inside a product is not continued"""
import flow, proc
from util import *
EXPLANATION = ("Path-sensitive typestate of one client connection over the flattened client thread, and of one fifo over the flattened filter thread, with every write "
               "split into sent completely / partly or not at all; the number of parts sent is related to the number of parts by difference bounds.")

SENT = (("al", "ghost sent"), 0)
FD = (("al", "ghost descriptor"), 0)


def flow_add(v):
    return ("c", v[1] + 1) if v[0] == "c" else (v[0], v[1], v[2] + 1)


class Client(flow.Spec):
    """prop: (connection: ok / bad / new, the main thread was told, product: None / new / open / sent / cut / failed, data, size, quitting, cell with the number of parts, no descriptor in the element, told to end)"""

    def __init__(self, chk, m, mods, proto):
        self.chk, self.mods, self.proto = chk, mods, proto
        self.fd = off(m, "conn_element_st", "fd")
        self.exit = off(m, "conn_element_st", "f_exit")
        self.parts = {}
        for s, fld in (("nbs1_packet_st", "num_blocks"), ("emwin_packet_st", "parts_total")):
            self.parts["init_nbs_packet_st" if s[0] == "n" else "init_emwin_packet_st"] = (s, off(m, s, fld), off(m, s, "packet"), off(m, s, "packet_size"))
        self.sites = {}
        self.bad = {}

    def init(self, E, st):
        return ("ok", False, None, None, None, False, None, False, False)

    def prop_key(self, p):
        return p[:3] + (p[3] is None, p[5], p[6] and p[6][2]) + p[7:]

    def prop_syms(self, p):
        r = tuple(v[1] for v in p[3:5] if v is not None and v[0] == "s")
        return r + ((p[6][0],) if p[6] else ())

    def prop_join(self, p, q):
        return p[:3] + tuple(a if a == b else None for a, b in zip(p[3:5], q[3:5])) + (p[5], p[6] if p[6] == q[6] else None) + p[7:]

    def prop_rename(self, p, m):
        sub = lambda v: flow.subst(v, m) if v is not None else None
        cell = p[6]
        if cell:
            x = flow.subst(("s", cell[0], cell[1]), m)
            cell = (x[1], x[2], cell[2])
        return p[:3] + (sub(p[3]), sub(p[4]), p[5], cell) + p[7:]

    def fail(self, k, E, st, I, msg):
        self.bad.setdefault((k, where(I)), (I, E.path(st, I), msg))

    def good(self, k, I):
        self.sites[(k, where(I))] = I

    def upd(self, st, **kw):
        n = ("conn", "told", "prod", "data", "size", "quit", "cell", "nofd", "end")
        p = list(st.prop)
        for k, v in kw.items():
            p[n.index(k)] = v
        st.prop = tuple(p)

    def complete(self, E, st, I):
        """at the end of a product: were all its parts sent?"""
        conn, told, prod, data, size, quit, cell, nofd, end = st.prop
        if prod == "open" and cell:
            n = E.peek(st, ("s", cell[0], cell[1]))
            s = st.mem.get(SENT)
            if n is None or s is None or E.decide(st, "sge", s[0], n, 32) is not True:
                # a number of parts that is not positive: nothing to send
                if not (n is not None and st.hi(n) <= 0):
                    return False
        return True

    def on_call(self, E, st, I, name, args):
        conn, told, prod, data, size, quit, cell, nofd, end = st.prop
        if name == "connqueue_rcv":
            if prod in ("cut", "failed"):
                self.fail("dropped", E, st, I, "the next product is taken from the queue although the current one was %s"
                          % ("only partly sent" if prod == "cut" else "given up"))
            elif prod == "short":
                self.fail("parts", E, st, I, "the next product is taken from the queue although not every part of the current one was sent")
            elif prod in ("open", "new"):
                self.fail("unsent", E, st, I, "the next product is taken from the queue although the current one was not sent")
            else:
                self.good("every part of a product is sent before the next product is taken", I)
            v = E.default_call(st, I, name, args)
            out = []
            for t in (True, False):
                for s in E.assume(st.copy(), ("cmp", "eq", v, ("c", 0), 32), t):
                    self.upd(s, prod=None, cell=None, data=None, size=None)
                    if t and args[1][0] == "s" and args[2][0] == "s":
                        d, z = E.fresh(s, I, tag="data"), E.fresh(s, I, tag="size")
                        E.rng(s, z, 0, (1 << 32) - 1)
                        s.ne = s.ne | {(d[1], 0)}
                        s.mem[(args[1][1], args[1][2])] = (d, 8, None)
                        s.mem[(args[2][1], args[2][2])] = (z, 4, None)
                        self.upd(s, data=d, size=z, prod="new")
                    out.append((s, v))
            return out
        if name in ("free_nbs_packet_st", "free_emwin_packet_st"):
            if prod == "open":
                self.upd(st, prod="sent" if self.complete(E, st, I) else "short", cell=None)
            return None
        if name == "get_client_protocol_byce":
            return [(st, ("c", self.proto))]
        if name == "get_quit_flag":
            out = []
            for q in ((1,) if quit else (0, 1)):
                s = st.copy()
                self.upd(s, quit=q)
                out.append((s, ("c", q)))
            return out
        if name in self.parts:
            v = E.default_call(st, I, name, args)
            out = []
            for t in (True, False):
                for s in E.assume(st.copy(), ("cmp", "eq", v, ("c", 0), 32), t):
                    if not t:
                        self.upd(s, prod="failed", cell=None)
                    elif args[0][0] == "s":
                        o = self.parts[name]
                        k = (args[0][1], args[0][2] + o[1])
                        n = E.fresh(s, I, tag="parts")
                        E.rng(s, n, -(1 << 31), (1 << 31) - 1)
                        s.mem[k] = (n, 4, None)
                        s.mem[SENT] = (("c", 0), 4, ("ghost", 0))
                        self.upd(s, prod="open", cell=(k[0], k[1], name))
                    out.append((s, v))
            return out
        if name in ("build_nbs_packet", "build_emwin_packet"):
            kept = None
            if cell:
                o = self.parts[cell[2]]
                cl = self.mods.get(name)
                if cl is not None and "ALL" not in cl and (o[0], o[1]) not in cl:
                    kept = st.mem.get((cell[0], cell[1]))
            v = E.default_call(st, I, name, args)
            if kept:
                st.mem[(cell[0], cell[1])] = kept
            out = []
            for t in (True, False):
                for s in E.assume(st.copy(), ("cmp", "eq", v, ("c", 0), 32), t):
                    if not t:
                        self.upd(s, prod="failed")
                    out.append((s, v))
            return out
        if name == "writem":
            if conn == "bad":
                self.fail("continued", E, st, I, "writes to a connection after a product was cut off on it")
            elif conn == "new" and (st.mem.get(FD) or (None,))[0] != args[0]:
                self.fail("which", E, st, I, "does not write to the descriptor of the reopened connection")
            elif prod == "cut":
                if cell is None and data is not None and args[1] == data:
                    pass
                else:
                    self.fail("middle", E, st, I, "a product that was cut off is continued on the reopened connection instead of being sent again")
            elif prod == "failed":
                self.fail("failed", E, st, I, "a product is continued although one of its parts could not be made")
            elif prod is None:
                self.fail("nothing", E, st, I, "writes without a product")
            elif cell is None:
                if data is None or args[1] != data or E.decide(st, "eq", args[2], size) is not True:
                    self.fail("whole", E, st, I, "what is written is not the whole element taken from the queue")
                else:
                    self.good("the whole element taken from the queue is written", I)
            else:
                o = self.parts[cell[2]]
                base = ("s", cell[0], cell[1] - o[1] + o[2])
                z = E.peek(st, ("s", cell[0], cell[1] - o[1] + o[3]))
                if args[1] != base or z is None or E.decide(st, "eq", args[2], z) is not True:
                    self.fail("part", E, st, I, "what is written is not the whole part that was made")
                else:
                    self.good("the whole part is written", I)
            E.rng(st, args[2], 0, 1 << 40)
            out = []
            s = st.copy()
            if cell:
                n = s.mem.get(SENT)
                if n is not None:
                    s.mem[SENT] = (flow_add(n[0]), 4, ("ghost", 0))
            else:
                self.upd(s, prod="sent")
            out.append((s, args[2]))
            for r in ("-1", "part"):
                s = st.copy()
                if r == "-1":
                    x = ("c", -1)
                else:
                    x = E.fresh(s, I, tag="n")
                    ss = [y for y in E.assume(s, ("cmp", "slt", x, args[2], 64), True)]
                    ss = [y for z0 in ss for y in E.assume(z0, ("cmp", "sge", x, ("c", 0), 64), True)]
                    if not ss:
                        continue
                    s = ss[0]
                self.upd(s, conn="bad", told=False, prod="cut", cell=None)
                out.append((s, x))
            return out
        if name == "conn_element_set_connection_status":
            v = E.default_call(st, I, name, args)
            minus = E.const(st, args[1])
            if minus is None or (minus & 0xffffffff) != 0xffffffff:
                self.fail("status", E, st, I, "the client thread marks its connection as good")
            out = []
            for t in (True, False):
                for s in E.assume(st.copy(), ("cmp", "eq", v, ("c", 0), 32), t):
                    self.upd(s, told=t)
                    out.append((s, v))
            return out
        if name == "conn_element_get_connection_status":
            v = E.default_call(st, I, name, args)
            out = []
            for t in (True, False):
                for s in E.assume(st.copy(), ("cmp", "eq", v, ("c", 0), 32), t):
                    if t and told and args[1][0] == "s":
                        fd = E.fresh(s, I, tag="fd")
                        E.rng(s, fd, 0, (1 << 31) - 1)
                        s.mem[(args[1][1], args[1][2])] = (fd, 4, None)
                        s.mem[FD] = (fd, 4, ("ghost", 1))
                        self.upd(s, conn="new", told=False)
                    elif t and args[1][0] == "s":
                        s.mem[(args[1][1], args[1][2])] = (E.fresh(s, I, tag="fd"), 4, None)
                    out.append((s, v))
            return out
        return None

    def on_store(self, E, st, I, addr, val, cls):
        # only to keep apart the states that differ in it
        c = E.const(st, val)
        if cls == ("conn_element_st", self.fd):
            self.upd(st, nofd=c is not None and c & 0xffffffff == 0xffffffff)
        elif cls == ("conn_element_st", self.exit):
            self.upd(st, end=c != 0)

    def load_value(self, E, st, I, addr, size, cls):
        if cls == ("conn_element_st", self.fd):
            # a client thread starts with an open connection
            v = E.fresh(st, I)
            E.rng(st, v, 0, (1 << 31) - 1)
            return v
        if any(cls == (o[0], o[3]) for o in self.parts.values()):
            # every part has an envelope, and fits in its buffer
            v = E.fresh(st, I)
            E.rng(st, v, 1, 1 << 20)
            return v
        return None

    def on_ret(self, E, st, I, val):
        self.good("the thread ends", I)


def run_client(chk, m, mods):
    roots = [r for r in thread_roots(m) if "connqueue_rcv" in callees_closure(m, [r])]
    chk.count("client threads", len(roots))
    chk.atleast("client threads", 1)
    for r in roots:
        keep = {"writem", "connqueue_rcv", "connqueue_rcv_cleanup", "connqueue_test_dberror_flag", "conn_element_set_connection_status",
                "conn_element_get_connection_status", "init_nbs_packet_st", "init_emwin_packet_st", "free_nbs_packet_st", "free_emwin_packet_st",
                "build_nbs_packet", "build_emwin_packet", "nbsfp_unpack_fpath", "conn_element_report_cstats", "conn_element_set_finished_flag",
                "get_client_protocol_byce", "get_quit_flag", "conn_stats_update_packets", "conn_stats_update_errors"}
        F = flat(chk, m, r, keep)
        good, bad = {}, {}
        protos = proc.macros(chk, "PROTOCOL_[A-Z0-9]+")
        for nm, v in sorted(protos.items()) + [("unknown", -99)]:
            s = Client(chk, m, mods, v)
            e = flow.Engine(F, s, mods=mods, K=48, KL=12, max_steps=600000).run()
            if e.truncated:
                raise AnalysisBroken(r)
            good.update(s.sites)
            for k, x in s.bad.items():
                bad.setdefault(k, x)
        for k, I in good.items():
            if k not in bad:
                chk.ok(k[0], k[1])
        for k, (I, path, msg) in bad.items():
            chk.violation("%s:%s" % (r, k[0]), I.file, I.line, I.fn.name, msg, path)
        n = {}
        for k, w in good:
            n[k] = n.get(k, 0) + 1
        chk.count("writes to clients", n.get("the whole element taken from the queue is written", 0) + n.get("the whole part is written", 0) + len(bad))
    chk.atleast("writes to clients", 3)


class Fifo(flow.Spec):
    """prop: descriptors (values) on which a product was cut off and that are still in use"""

    def __init__(self, chk, m):
        self.chk = chk
        self.bad, self.sites, self.at = {}, {}, set()
        self.fd = off(m, "filter_entry_st", "fd")

    def init(self, E, st):
        return None

    def prop_syms(self, p):
        return (p[1],) if p and p[0] == "s" else ()

    def prop_key(self, p):
        return p is None

    def prop_join(self, p, q):
        return p if p == q else ("any", 0)

    def prop_rename(self, p, m):
        return flow.subst(p, m) if p and p[0] == "s" else p

    def fail(self, k, E, st, I, msg):
        self.at.add(where(I))
        self.bad.setdefault((k, where(I)), (I, E.path(st, I), msg))

    def on_call(self, E, st, I, name, args):
        if name == "writem":
            if st.prop is not None:
                self.fail("continued", E, st, I, "writes to a filter although the last product sent to it was cut off")
            # the descriptor must come from the table, so that it can be forgotten there
            src = [k for k, (val, n, c) in st.mem.items() if c == ("filter_entry_st", self.fd) and val == args[0]]
            self.sites[where(I)] = I
            E.rng(st, args[2], 0, 1 << 40)
            out = [(st.copy(), args[2])]
            for r in ("-1", "part"):
                s = st.copy()
                x = ("c", -1)
                if r == "part":
                    x = E.fresh(s, I, tag="n")
                    ss = [y for y in E.assume(s, ("cmp", "slt", x, args[2], 64), True)]
                    ss = [y for z0 in ss for y in E.assume(z0, ("cmp", "sge", x, ("c", 0), 64), True)]
                    if not ss:
                        continue
                    s = ss[0]
                if src:
                    s.prop = ("s", src[0][0], src[0][1])
                else:
                    s.prop = ("c", -77)
                out.append((s, x))
            return out
        if name in ("e_nbspq_rcv_filter", "nbspqt_rcv") and st.prop is not None:
            self.fail("kept", E, st, I, "the fifo stays open for the next product although the last one was cut off")
        return None

    def on_store(self, E, st, I, addr, val, cls):
        if st.prop is not None and cls == ("filter_entry_st", self.fd) and E.const(st, val) is not None and (E.const(st, val) & 0xffffffff) == 0xffffffff:
            if st.prop in (addr, ("any", 0)):
                st.prop = None

    def on_ret(self, E, st, I, val):
        if st.prop is not None:
            self.fail("kept", E, st, I, "the fifo stays open although the last product sent to it was cut off")


def run_fifo(chk, m, mods):
    table = ("filter_entry_st", off(m, "filter_entry_st", "fd"))
    n = 0
    for r in sorted(thread_roots(m)):
        c = callees_closure(m, [r])
        if "writem" not in c or "connqueue_rcv" in c:
            continue
        if not any(table in (mods.get(x) or ()) for x in c):
            continue
        keep = {"writem", "e_nbspq_rcv_filter", "nbspqt_rcv", "e_get_filters", "e_reload_filters", "nbsfp_unpack_fpath", "get_quit_flag", "open_filter_server",
                "report_filters_stats", "open_filters1"}
        F = flat(chk, m, r, keep)
        s = Fifo(chk, m)
        e = flow.Engine(F, s, mods=mods, K=24, KL=8, max_steps=900000).run()
        if e.truncated:
            raise AnalysisBroken(r)
        n += len(s.sites)
        for k, I in s.sites.items():
            if k not in s.at:
                chk.ok("a fifo on which a product was cut off is closed before anything else is written to it", k)
        for k, (I, path, msg) in s.bad.items():
            chk.violation("%s:%s" % (r, k[0]), I.file, I.line, I.fn.name, msg, path)
    chk.count("writes to filters", n)
    chk.atleast("writes to filters", 1)


def check(chk):
    m, mods = chk.nbspd, chk.ctx.mods()
    chk.rule = "after a write that did not take everything: no write before the reopened connection's descriptor is taken over, and the product starts again; all parts are sent before the next product"
    run_client(chk, m, mods)
    run_fifo(chk, m, mods)
