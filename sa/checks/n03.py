"""N03 every address of a host is tried until one works"""
import allprogs, flow
from util import *
EXPLANATION = ("Every function that resolves a host with getaddrinfo() is interpreted on all paths with every failure of the calls that set up a socket, "
               "keeping for the current address which steps succeeded and whether one failed.")

STEPS = ("socket", "setsockopt", "fcntl", "bind", "listen", "connect", "connect_timed")
NEXT = ("addrinfo", 40)


class Spec(flow.Spec):
    """prop: (resolved, steps that worked on the descriptor, a step failed, descriptor, was there an address, freed)"""

    def __init__(self, chk, m, f):
        self.chk, self.f = chk, f
        # a datagram socket needs no connection
        n = {I.x for I in f.calls()}
        self.need = {"socket"}
        if "bind" in n:
            self.need.add("bind")
        if "listen" in n:
            self.need.add("listen")
        self.conn = bool(n & {"connect", "connect_timed"})
        self.good, self.bad = {}, {}
        NEXT_ = m.di().offset("addrinfo", "ai_next")
        if NEXT_ is None:
            raise AnalysisBroken("addrinfo.ai_next not found")
        self.next = ("addrinfo", NEXT_)
        self.addr = m.di().offset("addrinfo", "ai_addr")

    def init(self, E, st):
        return (None, frozenset(), False, None, None, 0)

    def prop_key(self, p):
        return p[:3] + (p[3] is None,) + p[5:]

    def prop_syms(self, p):
        r = ()
        for v in (p[3], p[4]):
            if v is not None and v[0] == "s":
                r += (v[1],)
        return r

    def prop_join(self, p, q):
        return p if p == q else p[:3] + (p[3] if p[3] == q[3] else None, p[4] if p[4] == q[4] else None) + p[5:]

    def prop_rename(self, p, m):
        return p[:3] + tuple(flow.subst(v, m) if v is not None else None for v in p[3:5]) + p[5:]

    def fail(self, what, E, st, I, msg):
        self.bad.setdefault((what, where(I)), (I, E.path(st, I), msg))

    def on_call(self, E, st, I, name, args):
        res, steps, failed, fd, cur, freed = st.prop
        if name == "getaddrinfo":
            v = E.default_call(st, I, name, args)
            out = []
            for t in (True, False):
                for s in E.assume(st.copy(), ("cmp", "eq", v, ("c", 0), 32), t):
                    s.prop = (t, frozenset(), False, None, None, freed)
                    if t:
                        # the list has at least one address
                        x = E.fresh(s, I, tag="ai")
                        s.prop = (t, frozenset(), False, None, x, freed)
                        s.ne = s.ne | {(x[1], 0)}
                        if args[3][0] == "s":
                            s.mem[(args[3][1], args[3][2])] = (x, 8, None)
                    out.append((s, v))
            return out
        if name == "freeaddrinfo":
            if freed:
                self.fail("free", E, st, I, "the list of addresses is freed twice")
            st.prop = st.prop[:5] + (1,)
            return None
        if name in ("bind", "connect", "connect_timed") and res and cur is not None and cur[0] == "s":
            a = E.peek(st, ("s", cur[1], cur[2] + self.addr))
            if a is None or a != args[1]:
                self.fail("address", E, st, I, "%s() is not given the current address" % name)
            else:
                self.good[("address", where(I))] = I
        if name in STEPS and res:
            v = E.default_call(st, I, name, args)
            if name == "socket" and self.complete(steps, failed):
                self.fail("again", E, st, I, "another socket is opened although the connection was set up")
            if name == "socket":
                steps, failed, fd = frozenset(), False, None
            out = []
            for t in (True, False):
                for s in E.assume(st.copy(), ("cmp", "sge", v, ("c", 0), 32), t):
                    if name != "socket" and not t or name == "socket" and not t:
                        E.rng(s, v, -1, -1)
                    if t and name in ("bind", "listen", "connect", "connect_timed", "setsockopt"):
                        E.rng(s, v, 0, 0)
                    s.prop = (res, steps | {name} if t else steps, failed or not t, v if name == "socket" and t else fd, cur, freed)
                    out.append((s, v))
            return out
        if name in ("malloc", "calloc") and res:
            # out of memory is a reason to give up
            v = E.default_call(st, I, name, args)
            out = []
            for t in (True, False):
                for s in E.assume(st.copy(), ("cmp", "ne", v, ("c", 0), 64), t):
                    if not t:
                        s.prop = (res, steps | {"memory"}, True, fd, cur, freed)
                    out.append((s, v))
            return out
        if name == "close":
            st.prop = (res, steps & {"memory"}, failed, None, cur, freed)
        return None

    def complete(self, steps, failed):
        return self.need <= steps and (not self.conn or steps & {"connect", "connect_timed"}) and not failed

    def on_load(self, E, st, I, addr, cls):
        if cls == self.next and st.prop[0]:
            res, steps, failed, fd, cur, freed = st.prop
            if not failed and not self.complete(steps, failed):
                self.fail("skip", E, st, I, "goes on to the next address although the current one was not tried or did not fail")
            else:
                self.good[("next", where(I))] = I

    def load_value(self, E, st, I, addr, size, cls):
        if cls == self.next and st.prop[0]:
            res, steps, failed, fd, cur, freed = st.prop
            v = E.fresh(st, I)
            if self.complete(steps, failed):
                st.prop = (res, steps, False, fd, v, freed)
            else:
                st.prop = (res, frozenset(), False, None, v, freed)
            return v
        return None

    def on_ret(self, E, st, I, val):
        res, steps, failed, fd, cur, freed = st.prop
        if not res:
            return
        if not freed:
            self.fail("leak", E, st, I, "the list of addresses is not freed")
        if E.decide(st, "sge", val, ("c", 0)) is not False and st.hi(val) >= 0:
            ok = self.complete(steps, failed) and fd is not None and (val == fd or E.decide(st, "eq", val, fd) is True)
            if not ok and E.decide(st, "sge", val, ("c", 0)) is None:
                ok = False
            if ok:
                self.good[("connected", where(I))] = I
            else:
                self.fail("success", E, st, I, "a descriptor is returned although the connection was not set up")
        elif self.complete(steps, failed):
            self.fail("lost", E, st, I, "reports a failure although the connection was set up")
        else:
            # failure: no address may be left
            if "memory" in steps:
                self.good[("memory", where(I))] = I
            elif cur is not None and E.isnull(st, cur) is not True and not failed:
                self.fail("giveup", E, st, I, "gives up although no step failed")
            elif cur is not None and E.isnull(st, cur) is not True:
                self.fail("giveup", E, st, I, "gives up although addresses may be left")
            else:
                self.good[("failed", where(I))] = I


def check(chk):
    chk.rule = "an address is left only after a step failed on it; a descriptor is returned only if every step succeeded on it; failure only after the last address"
    for p, m, f, key, new in allprogs.each(chk):
        if not new or not any(True for _ in f.calls("getaddrinfo")):
            continue
        if p == "nbspd" and f.name not in live_funcs(m):
            continue
        F = flat(chk, m, f.name, set(STEPS) | {"freeaddrinfo", "close"})
        s = Spec(chk, m, F)
        e = flow.Engine(F, s, mods=chk.ctx.mods() if p == "nbspd" else None, K=64, KL=8, max_steps=400000).run()
        if e.truncated:
            raise AnalysisBroken(f.name)
        chk.count("functions that resolve a host")
        for k, I in s.good.items():
            if k not in s.bad:
                chk.ok(k[0], k[1])
        for k, (I, path, msg) in s.bad.items():
            chk.violation("%s:%s:%s" % (f.file, f.name, k[0]), I.file, I.line, f.name, msg, path)
    chk.atleast("functions that resolve a host", 2)
