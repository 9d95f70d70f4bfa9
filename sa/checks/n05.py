"""N05 the distribution filter decides for each client separately"""
import flow, proc
from util import *
K, N, CE = ("K",), ("N",), ("CE",)
EXPLANATION = ("The function that asks the distribution script about the clients is interpreted for one client at an arbitrary place of the connection table (with and without a name and an address); "
               "a typestate follows what the script's variables hold, for whom the script was last executed, which of its answers were looked up since, and what is stored as the client's permission.")

NAME, IP, FD, TH = ("NAME",), ("IP",), ("FD",), ("TH",)
ANS = {"d": ("Rd",), "n": ("Rn",), "i": ("Ri",)}
VAL = {"d": ("Vd",), "n": ("Vn",), "i": ("Vi",)}
EVALS = {"Tcl_FSEvalFile", "Tcl_EvalFile", "Tcl_EvalObjEx", "Tcl_Eval", "Tcl_EvalEx", "Tcl_FSEvalFileEx"}
SETS, GETS = {"Tcl_SetVar2"}, {"Tcl_GetVar2"}


class Spec(flow.Spec):
    """prop: (place relative to the followed client, value last given as name / address, script executed for: None/"K"/"other", answers looked up since, a step failed, permission stored)"""

    def __init__(self, chk, m, kind, good, bad):
        self.m, self.good, self.bad = m, good, bad
        self.hasname, self.hasip, self.client = kind
        di = m.di()
        self.S = di.size("conn_element_st")
        f = {}
        for x in ("name", "ip", "type", "threadinfo", "filterdata"):
            f[("conn_element_st", off(m, "conn_element_st", x))] = x
        for x in ("f_thread_created", "f_thread_finished"):
            f[("thread_info_st", off(m, "thread_info_st", x))] = x
        self.f = f
        self.n = ("conn_table_st", off(m, "conn_table_st", "n"))
        self.ce = ("conn_table_st", off(m, "conn_table_st", "ce"))
        self.allow = ("allow_filter_st", off(m, "allow_filter_st", "allow"))
        c = proc.macros(chk, "(?:CONN_TYPE|NETFILTER)_[A-Z0-9_]+")
        self.T, self.dflt = c["CONN_TYPE_CLIENT_NET"], c["NETFILTER_ALLOW_DEFAULT"]
        self.srv = c["CONN_TYPE_SERVER_NET"]

    def init(self, E, st):
        E.rng(st, ("s", K, 0), 0, 1 << 30)
        E.rng(st, ("s", N, 0), 1, 1 << 30)
        st.add(K, N, -1)
        for s in (NAME, IP, FD, TH) + tuple(ANS.values()):
            st.ne = st.ne | {(s, 0)}
        return (None, None, None, None, (), False, False)

    def prop_syms(self, p):
        return (K, N, CE, NAME, IP, FD, TH) + tuple(ANS.values()) + tuple(VAL.values())

    def prop_rename(self, p, m):
        return p

    def fail(self, k, E, st, I, msg):
        self.bad.setdefault((k, where(I)), (I, E.path(st, I), msg))

    def index(self, p):
        if p[0] != "s":
            return None
        c, sym, var = p[2], p[1], ()
        if isinstance(sym, tuple) and sym and sym[0] == "ix":
            c += sym[2]
            var = sym[3]
            sym = sym[1]
        if sym != CE or len(var) > 1 or var and var[0][1] != self.S:
            return None
        c = c // self.S
        if not var:
            return ("c", c)
        v = var[0][0]
        return (v[0], v[1], v[2] + c) if v[0] == "s" else ("c", v[1] + c)

    def on_index(self, E, st, I, b, var):
        """the states before, at and after the followed client stay apart"""
        i = self.index(("s", ("ix", b[1], b[2], tuple(var)), 0)) if b[0] == "s" else None
        if i is None:
            return None
        r = []
        for p in ("eq", "slt", "sgt"):
            for s in E.assume(st.copy(), ("cmp", p, i, ("s", K, 0), 32), True):
                s.prop = (p,) + s.prop[1:] if p == "eq" else (p, None, None, None, (), s.prop[5], s.prop[6])
                r.append(s)
        return r

    def load_value(self, E, st, I, addr, size, cls):
        if cls == self.ce:
            return ("s", CE, 0)
        if cls == self.n:
            return ("s", N, 0)
        x = self.f.get(cls)
        if x is None:
            return None
        if x.startswith("f_thread"):
            return ("c", int(x == "f_thread_created")) if addr[1] == TH else None
        i = self.index(addr)
        if i is None:
            raise AnalysisBroken("%s: an entry of the connection table is not designated by an index" % where(I))
        if E.decide(st, "eq", i, ("s", K, 0)) is not True:
            return None
        if x == "type":
            return ("c", self.T if self.client else self.srv)
        if x == "name":
            return ("s", NAME, 0) if self.hasname else ("c", 0)
        if x == "ip":
            return ("s", IP, 0) if self.hasip else ("c", 0)
        if x == "threadinfo":
            return ("s", TH, 0) if self.client else ("c", 0)
        return ("s", FD, 0) if self.client else ("c", 0)

    def text(self, v):
        if v == ("s", NAME, 0):
            return "n"
        if v == ("s", IP, 0):
            return "i"
        s = E_text(self.m, v)
        if s == "":
            return "e"
        return None

    def on_call(self, E, st, I, name, args):
        rel, cn, ci, ev, ans, fld, sto = st.prop
        if name in SETS:
            which, t = E_text(self.m, args[2]), self.text(args[3])
            out = []
            for ok in (True, False):
                s = st.copy()
                a, b = cn, ci
                if rel != "eq":
                    pass
                elif which == "clientname":
                    a = t
                elif which == "clientip":
                    b = t
                s.prop = (rel, a, b, ev, ans, fld or not ok, sto)
                v = E.fresh(s, I)
                out += [(z, v) for z in E.assume(s, ("cmp", "ne" if ok else "eq", v, ("c", 0), 64), True)]
            return out
        if name in EVALS:
            mine = rel == "eq" and cn == ("n" if self.hasname else "e") and ci == ("i" if self.hasip else "e")
            out = []
            for ok in (True, False):
                s = st.copy()
                s.prop = (rel, cn, ci, "K" if mine else "other", (), fld or not ok, sto)
                v = ("c", 0)
                if not ok:
                    v = E.fresh(s, I)
                    E.rng(s, v, 1, 4)
                out.append((s, v))
            return out
        if name in GETS:
            if E_text(self.m, args[1]) != "allow":
                return None
            t = E_text(self.m, args[2])
            w = "d" if t == "0" else "n" if args[2] == ("s", NAME, 0) else "i" if args[2] == ("s", IP, 0) else None
            if w is None or ev != "K":
                if args[2] == ("c", 0):
                    return [(st, ("c", 0))]
                return None
            s = st.copy()
            s.prop = (rel, cn, ci, ev, self.put(ans, w, "no"), fld, sto)
            return [(st, ("s", ANS[w], 0)), (s, ("c", 0))]
        if name == "Tcl_GetInt":
            w = [k for k, v in ANS.items() if args[1] == ("s", v, 0)]
            out = []
            for ok in (True, False):
                s = st.copy()
                v = ("c", 0)
                if ok:
                    x = ("s", VAL[w[0]], 0) if w else E.fresh(s, I)
                    E.store(s, args[2], x, 4, None)
                else:
                    v = ("c", 1)
                if w:
                    s.prop = (rel, cn, ci, ev, self.put(ans, w[0], "yes" if ok else "no"), fld, sto)
                out.append((s, v))
            return out
        return None

    @staticmethod
    def put(ans, w, x):
        return tuple(sorted([a for a in ans if a[0] != w] + [(w, x)]))

    def on_store(self, E, st, I, addr, val, cls):
        if addr != ("s", FD, self.allow[1]) and not (addr[0] == "c" and cls in (None, self.allow)):
            return None
        rel, cn, ci, ev, ans, fld, sto = st.prop
        if addr[0] == "c":
            self.fail("null", E, st, I, "a permission is stored for an entry of the table that is no client")
            return False
        if ev != "K":
            self.fail("for", E, st, I, "the permission of a client is stored although the script was not executed with this client's name and address since the variables were set")
            return None
        a = dict(ans)
        if not self.hasname:
            a["n"] = "no"
        if not self.hasip:
            a["i"] = "no"
        want = None
        for w in ("n", "i", "d"):
            if a.get(w) is None:
                self.fail("unasked", E, st, I, "the permission is stored although the script's answer for the %s was not looked up after it was executed"
                          % {"n": "name of the client", "i": "address of the client", "d": "default"}[w])
                return None
            if a[w] == "yes":
                want = ("s", VAL[w], 0)
                break
        else:
            want = ("c", self.dflt)
        if val != want:
            self.fail("value", E, st, I, "what is stored as the permission of a client is not the script's answer (by name, else by address, else its default, else the built-in default)")
        else:
            self.good[("the permission stored is the script's answer for this client (%s)" % self.kind, where(I))] = I
        st.prop = (rel, cn, ci, ev, ans, fld, True)
        return None

    def on_ret(self, E, st, I, val):
        rel, cn, ci, ev, ans, fld, sto = st.prop
        z = E.decide(st, "eq", val, ("c", 0))
        if fld:
            if z is not False:
                self.fail("hidden", E, st, I, "success is returned although a variable could not be set or the script could not be executed")
            else:
                self.good[("failure of the script is reported", where(I))] = I
        elif z is not False and self.client and not sto:
            self.fail("skipped", E, st, I, "a running client keeps the permission it had for an earlier product")
        elif z is not True:
            self.fail("abandoned", E, st, I, "failure is returned, or may be, although no step failed")


def E_text(m, v):
    """the text a value points to, if it is a constant"""
    if v[0] == "s" and v[2] == 0 and v[1][0] == "g":
        return m.cstring(v[1][1])
    return None


def check(chk):
    m, mods = chk.nbspd, chk.ctx.mods()
    chk.rule = "permission(client) = allow(name) else allow(address) else allow(default) else the built-in default, after executing the script with this client's name and address"
    cand = callers_closure(m, SETS) & callers_closure(m, EVALS) & callers_closure(m, GETS)
    roots = [r for r in cand if not any(I.x in cand for I in m.func(r).calls())]
    chk.count("functions asking the script", len(roots))
    chk.atleast("functions asking the script", 1)
    for r in roots:
        F = flat(chk, m, r, ())
        good, bad = {}, {}
        for nm, k in (("name and address", (1, 1, 1)), ("no name", (0, 1, 1)), ("no address", (1, 0, 1)), ("neither", (0, 0, 1)), ("listening socket", (0, 0, 0))):
            s = Spec(chk, m, k, good, bad)
            s.kind = nm
            e = flow.Engine(F, s, mods=mods, K=12, KL=4, max_steps=400000)
            e.pairs = (-1, 0)
            e.keepix = (s.S,)
            e.run()
            if e.truncated:
                raise AnalysisBroken(r)
            chk.count("kinds of client")
        for k, I in good.items():
            chk.ok(k[0], k[1])
        for k, (I, path, msg) in bad.items():
            chk.violation("%s:%s" % (r, k[0]), I.file, I.line, I.fn.name, msg, path)
    chk.atleast("kinds of client", 5)
    chk.count("permissions stored", sum(1 for k in good if k[0].startswith("the permission")))
    chk.atleast("permissions stored", 4)
