"""N04 every running client that may have a product gets it once"""
import flow, proc
from util import *
EXPLANATION = ("The function that hands a product from the server queue to the clients is interpreted once for every kind of client, following one client at an arbitrary place in the "
               "connection table: difference bounds relate the loop counters to that place and to the number of entries.")

K, N, CE = ("K",), ("N",), ("CE",)
NET, RUN, STOP = "conn_element_isnetclient", "conn_element_isnetclient_running", "conn_element_isnetclient_stoped"
KEEP = {NET, RUN, STOP, "conn_table_element_isnetclient", "conn_table_element_isnetclient_running", "conn_table_element_isnetclient_stoped",
        "get_client_protocol", "get_client_protocol_byce", "allow_filter_get_flag", "connqueue_snd", "exec_net_filter", "exec_emwin_filter", "init_sfilter_input",
        "nbsfp_unpack_fpath", "e_nbspq_rcv_server", "get_client_qlimit_log_last", "set_client_qlimit_log_last", "conn_table_get_netclients"}


class Spec(flow.Spec):
    """prop: (product received / unpacked / filter failed, answer of the emwin filter, records queued for the followed client, buffer of the emwin record, last entry looked at: before / at / after the followed one)"""

    def __init__(self, chk, m, kind, good, bad):
        self.chk, self.good, self.bad = chk, good, bad
        self.net, self.run, self.proto, self.allowed, self.enabled = kind
        di = m.di()
        self.S = di.size("conn_element_st")
        self.E = di.size("emwin_queue_info_st")
        self.cq = ("conn_element_st", off(m, "conn_element_st", "cq"))
        self.n = ("conn_table_st", off(m, "conn_table_st", "n"))
        self.ce = ("conn_table_st", off(m, "conn_table_st", "ce"))
        self.nc = ("conn_table_st", off(m, "conn_table_st", "nclients"))
        self.en = ("nbsp_globals", off(m, "nbsp_globals", "netfilter_enable"))
        self.pk = ("packet_info_st", off(m, "packet_info_st", "packet"))
        self.ps = ("packet_info_st", off(m, "packet_info_st", "packet_size"))
        self.P = proc.macros(chk, "PROTOCOL_[A-Z0-9]+")
        self.sent = set()

    def init(self, E, st):
        E.rng(st, ("s", K, 0), 0, 1 << 30)
        E.rng(st, ("s", N, 0), 1, 1 << 30)
        st.add(K, N, -1)
        return ("none", None, 0, None, None)

    def prop_key(self, p):
        return p[:3] + (p[3] and p[3][0],) + p[4:]

    def prop_syms(self, p):
        return (K, N, CE) + ((p[3][1],) if p[3] and p[3][1] else ())

    def prop_join(self, p, q):
        return p[:3] + (p[3] if p[3] == q[3] else (p[3][0], None),) + p[4:]

    def prop_rename(self, p, m):
        if p[3] and p[3][1]:
            v = flow.subst(("s", p[3][1], 0), m)
            return p[:3] + ((p[3][0], v[1]),) + p[4:]
        return p

    def fail(self, k, E, st, I, msg):
        self.bad.setdefault((k, where(I)), (I, E.path(st, I), msg))

    def load_value(self, E, st, I, addr, size, cls):
        if cls == self.ce:
            return ("s", CE, 0)
        if cls == self.n:
            return ("s", N, 0)
        if cls == self.nc:
            v = E.fresh(st, I)
            E.rng(st, v, 1 if self.net else 0, 1 << 30)
            return v
        if cls == self.en:
            return ("c", self.enabled)
        return None

    def index(self, p):
        """index of the element that a pointer to an element designates"""
        if p[0] != "s":
            return None
        c, sym = p[2], p[1]
        var = ()
        if isinstance(sym, tuple) and sym and sym[0] == "ix":
            c += sym[2]
            var = sym[3]
        if len(var) > 1 or var and var[0][1] != self.S or c % self.S:
            return None
        if not var:
            return ("c", c // self.S) if sym == CE else None
        v = var[0][0]
        return (v[0], v[1], v[2] + c // self.S) if v[0] == "s" else ("c", v[1] + c // self.S)

    def split(self, E, st, i):
        """(state, is it the followed client)"""
        if i is None:
            raise AnalysisBroken("an element of the connection table is not designated by an index")
        r = []
        for p in ("eq", "slt", "sgt"):
            for s in E.assume(st.copy(), ("cmp", p, i, ("s", K, 0), 32), True):
                s.prop = s.prop[:4] + (p,)
                r.append((s, p == "eq"))
        return r

    def on_call(self, E, st, I, name, args):
        rcv, emw, cnt, buf, _ = st.prop
        if name == "e_nbspq_rcv_server" or name == "nbsfp_unpack_fpath" or name in ("init_sfilter_input", "exec_net_filter"):
            v = E.default_call(st, I, name, args)
            out = []
            for t in (True, False):
                for s in E.assume(st.copy(), ("cmp", "eq", v, ("c", 0), 32), t):
                    if name == "e_nbspq_rcv_server":
                        s.prop = ("received" if t else "none", None, 0, None, None)
                    elif name == "nbsfp_unpack_fpath":
                        s.prop = ("unpacked" if t else "corrupt",) + s.prop[1:]
                    elif not t:
                        s.prop = ("failed",) + s.prop[1:]
                    out.append((s, v))
            return out
        if name == "conn_table_get_netclients":
            v = E.default_call(st, I, name, args)
            E.rng(st, v, 1 if self.net else 0, 1 << 30)
            return [(st, v)]
        attr = None
        if name in (NET, RUN, STOP) or name == "get_client_protocol_byce" or name == "allow_filter_get_flag":
            i = self.index(args[0])
        elif name.startswith("conn_table_element_isnetclient") or name == "get_client_protocol":
            i = args[1]
        elif name == "connqueue_snd":
            src = [k for k, (v, n, c) in st.mem.items() if c == self.cq and v == args[0]]
            i = self.index(("s", src[0][0], src[0][1] - self.cq[1])) if src else None
        else:
            i = 0
        if i != 0:
            if name == "connqueue_snd":
                what, msg = self.record(E, st, args)
            out = []
            for s, k in self.split(E, st, i):
                v = E.default_call(s, I, name, args)
                if k:
                    if name.endswith("isnetclient"):
                        v = ("c", self.net)
                    elif name.endswith("_running"):
                        v = ("c", self.run)
                    elif name.endswith("_stoped"):
                        v = ("c", int(self.net and not self.run))
                    elif name.startswith("get_client_protocol"):
                        v = ("c", self.proto)
                    elif name == "allow_filter_get_flag":
                        v = ("c", self.allowed)
                    else:
                        want = "emwin" if self.proto == self.P["PROTOCOL_EMWIN"] else "packet" if self.proto in (self.P["PROTOCOL_NBS1"], self.P["PROTOCOL_NBS2"]) else None
                        if rcv != "unpacked":
                            self.fail("unpacked", E, s, I, "a record is queued although no product was received and unpacked")
                        elif what is None:
                            self.fail("record", E, s, I, msg)
                        elif what == "emwin" and emw != 0:
                            self.fail("unmade", E, s, I, "an emwin record is queued although the emwin filter did not make it for this product")
                        elif cnt:
                            self.fail("twice", E, s, I, "a product is queued twice for a client")
                        elif not self.run:
                            self.fail("notrunning", E, s, I, "a product is queued for a client whose thread is not running")
                        elif self.enabled and not self.allowed:
                            self.fail("denied", E, s, I, "a product is queued for a client that the distribution filter denies it")
                        elif want != what:
                            self.fail("protocol", E, s, I, "what is queued for a client does not fit its protocol")
                        else:
                            self.good[("a record of the client's protocol is queued for a running client that may have the product", where(I))] = I
                        s.prop = s.prop[:2] + (min(cnt + 1, 2),) + s.prop[3:]
                out.append((s, v))
            return out
        if name == "exec_emwin_filter":
            E.default_call(st, I, name, args)
            out = []
            for r in (0, 1, -1):
                s = st.copy()
                s.prop = (rcv, r, cnt, (1, args[1][1] if args[1][0] == "s" else None), s.prop[4])
                out.append((s, ("c", r)))
            return out
        return None

    def record(self, E, st, args):
        """what is queued: "packet", "emwin" or None"""
        for k, (v, n, c) in st.mem.items():
            if c == self.pk and v == args[1]:
                z = E.peek(st, ("s", k[0], k[1] - self.pk[1] + self.ps[1]))
                if z is not None and E.decide(st, "eq", args[2], z) is True or self.trunc(st, args[2], z):
                    return "packet", None
                return None, "not the whole packet is queued"
        b = st.prop[3]
        if args[1][0] == "s" and b and args[1][1] == b[1] and args[1][2] == 0:
            if E.const(st, args[2]) == self.E:
                return "emwin", None
            return None, "not the whole emwin record is queued"
        if args[1][0] == "s" and E.root(args[1][1])[0] == "al" and E.const(st, args[2]) == self.E:
            return "emwin", None
        return None, "what is queued is neither the packet nor the record of the emwin filter"

    @staticmethod
    def trunc(st, a, z):
        return z is not None and z[0] == "s" and a[0] == "s" and isinstance(a[1], tuple) and z[1] in flow.leaves(a[1])

    def on_ret(self, E, st, I, val):
        rcv, emw, cnt, buf, _ = st.prop
        if rcv != "unpacked":
            return
        p = self.P
        want = 0
        if self.net and self.run and (self.allowed or not self.enabled):
            if self.proto in (p["PROTOCOL_NBS1"], p["PROTOCOL_NBS2"]):
                want = 1
            elif self.proto == p["PROTOCOL_EMWIN"]:
                if emw is None:
                    self.fail("noemwin", E, st, I, "the emwin filter is not asked although a running client is an emwin client")
                    return
                want = int(emw == 0)
        if cnt < want:
            self.fail("lost", E, st, I, "a product is not queued for a running client that may have it")
        else:
            self.good[("queued exactly when due (%s)" % self.name, where(I))] = I


def check(chk):
    m, mods = chk.nbspd, chk.ctx.mods()
    chk.rule = "for every entry of the table: one record of its protocol if the client is running and allowed, none otherwise"
    cand = callers_closure(m, {"connqueue_snd"}) & callers_closure(m, {"e_nbspq_rcv_server"})
    roots = [r for r in cand if not any(I.x in cand for I in m.func(r).calls())]
    chk.count("distributing functions", len(roots))
    chk.atleast("distributing functions", 1)
    P = proc.macros(chk, "PROTOCOL_[A-Z0-9]+")
    kinds = [("not a client", (0, 0, 8, 1, 0)), ("not running", (1, 0, P["PROTOCOL_NBS1"], 1, 1))]
    for nm in ("NBS1", "NBS2", "EMWIN", "UNKNOWN"):
        v = P["PROTOCOL_" + nm]
        if nm == "UNKNOWN":
            kinds.append((nm, (1, 1, v, 1, 1)))
            continue
        kinds.append(("%s, no filter" % nm, (1, 1, v, 0, 0)))
        kinds += [("%s, %s" % (nm, "allowed" if a else "denied"), (1, 1, v, a, 1)) for a in (0, 1)]
    for r in roots:
        F = flat(chk, m, r, KEEP)
        good, bad = {}, {}
        for nm, k in kinds:
            s = Spec(chk, m, k, good, bad)
            s.name = nm
            e = flow.Engine(F, s, mods=mods, K=12, KL=4, max_steps=400000)
            e.pairs = (-1, 0)
            e.keepix = (s.S,)
            e.run()
            if e.truncated:
                raise AnalysisBroken(r)
            chk.count("kinds of client")
        for k, I in good.items():
            chk.ok(k[0], k[1])
        for k, (I, path, msg) in bad.items():
            chk.violation("%s:%s" % (r, k[0]), I.file, I.line, I.fn.name, msg, path)
        chk.count("queue insertions", sum(1 for I in F.calls("connqueue_snd")))
    chk.atleast("queue insertions", 1)
    chk.atleast("kinds of client", 12)
