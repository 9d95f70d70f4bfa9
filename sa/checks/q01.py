"""Q01 what is handed to a queue is stored once and accounted for, or refused"""
import flow, ops
from util import *
EXPLANATION = ("Path-sensitive typestate with difference bounds over the queue functions (helpers inlined): each database operation is split into "
               "success and failure; at every insertion the bounds on the path must imply that no limit is reached, and at every return the "
               "operations done, the changes of the counters and the status handed on must agree.")
WAITS = ("pthread_cond_wait", "pthread_cond_timedwait")
BIG = 1 << 30


class Queue(flow.Spec):
    """prop: (insertions, removals, change of the counter, last wait, buffer of the removal, [second store: insertions, reads, deletions])"""
    st_ = None            # structure of the queue
    hard = soft = None    # classes of the limits

    def __init__(self, chk, m, root):
        self.chk, self.m, self.root = chk, m, root
        self.cn = (self.st_, off(m, self.st_, "n"))
        self.dbt = {f: off(m, "__db_dbt", f) for f in ("data", "size", "ulen")}
        self.handles = {(self.st_, off(m, self.st_, f)): f for f in self.hf}
        self.puts, self.gets = set(), set()
        self.hsym = {}
        self.nsec, self.usec = off(m, "timespec", "tv_nsec"), off(m, "timeval", "tv_usec")

    def bad(self, E, st, I, key, msg):
        self.chk.violation("%s:%s" % (self.root, key), I.file, I.line, self.root, msg, E.path(st, I))

    def init(self, E, st):
        return (0, 0, 0, None, None, 0, 0, 0, None)

    def prop_syms(self, p):
        return tuple(v[1] for v in (p[4], p[8]) if v is not None and v[0] == "s")

    def prop_rename(self, p, mm):
        s = lambda v: None if v is None else flow.subst(v, mm)
        return p[:4] + (s(p[4]),) + p[5:8] + (s(p[8]),)

    def cell(self, E, st, cls, size):
        """the value of a field of the (one) queue object at hand, loaded if need be"""
        r = [v for k, (v, n, c) in st.mem.items() if c == cls]
        return r[0] if len(r) == 1 else None

    def load_value(self, E, st, I, addr, size, cls):
        if cls == self.cn:
            return E.rng(st, E.fresh(st, I), 0, BIG)
        if cls in self.handles:
            v = E.fresh(st, I)
            self.hsym[v[1]] = self.handles[cls]
            return v

    def on_store(self, E, st, I, addr, val, cls):
        if cls != self.cn:
            return
        old = E.peek(st, addr)
        if old is not None and old[0] == val[0] == "s" and old[1] == val[1]:
            d = val[2] - old[2]
        elif old is not None and old[0] == val[0] == "c":
            d = val[1] - old[1]
        else:
            self.bad(E, st, I, "count", "the number of queued elements is changed by something that is not one element")
            return
        st.prop = st.prop[:2] + (max(-3, min(3, st.prop[2] + d)),) + st.prop[3:]

    def which(self, E, st, args):
        return self.hsym.get(args[0][1]) if args[0][0] == "s" else None

    def dbtval(self, E, st, a, f):
        return E.peek(st, ("s", a[1], a[2] + self.dbt[f])) if a[0] == "s" else None

    def setp(self, st, **kw):
        p = list(st.prop)
        for k, v in kw.items():
            i = {"put": 0, "got": 1, "wait": 3, "buf": 4, "put2": 5, "got2": 6, "del2": 7, "key": 8}[k]
            p[i] = v
        st.prop = tuple(p)
        return st

    def outcomes(self, E, st, I, **ok):
        f = E.fresh(st, I)
        a, b = st.copy(), st.copy()
        self.setp(a, **ok)
        b.ne = b.ne | {(f[1], 0)}
        return a, b, f

    def on_call(self, E, st, I, name, args):
        if name in WAITS:
            for k in [k for k, (v, n, c) in st.mem.items() if c is None and k[0][0] != "al" or c and c[0] == self.st_]:
                del st.mem[k]
            if name == "pthread_cond_timedwait":
                ns = E.peek(st, ("s", args[2][1], args[2][2] + self.nsec)) if args[2][0] == "s" else None
                if ns is None or st.lo(ns) < 0 or st.hi(ns) >= 1000000000:
                    self.bad(E, st, I, "deadline", "the deadline of the wait may not be a valid time (nanoseconds of 1000000000 or more), which ends the wait at once with an error")
                else:
                    self.chk.ok("valid deadline", where(I))
            out = []
            for k, v in (("woken", 0), ("timeout", 110), ("error", 22)):
                if k == "timeout" and name == "pthread_cond_wait":
                    continue
                out.append((self.setp(st.copy(), wait=k), ("c", v)))
            return out
        if name in ("gettimeofday", "clock_gettime"):
            v = E.default_call(st, I, name, args)
            a = args[0 if name == "gettimeofday" else 1]
            if a[0] == "s":
                t = E.fresh(st, I, "ns")
                if name == "gettimeofday":
                    st.mem[(a[1], a[2] + self.usec)] = (E.rng(st, t, 0, 999999), 8, ("timeval", self.usec))
                else:
                    st.mem[(a[1], a[2] + self.nsec)] = (E.rng(st, t, 0, 999999999), 8, ("timespec", self.nsec))
            return [(st, v)]
        op = ops.db_op(self.m, I)
        if op is None:
            return None
        h = self.which(E, st, args)
        if h is None:
            raise AnalysisBroken("database of %s in %s not recognised" % (op, where(I)))
        return self.db(E, st, I, op, h, args)

    def db(self, E, st, I, op, h, args):
        if op == "put" and h == "dbp":
            return self.put(E, st, I, args)
        if op == "get" and h == "dbp":
            return self.get(E, st, I, args)
        if op == "get_re_len":
            E.havoc(st, args[1:], set())
            for k in [k for k in st.mem if args[1][0] == "s" and k[0] == args[1][1]]:
                del st.mem[k]
        elif op == "truncate":
            pass
        elif op not in ("sync",):
            raise AnalysisBroken("unexpected database operation %s in %s" % (op, where(I)))
        a, b, f = self.outcomes(E, st, I)
        return [(a, ("c", 0)), (b, f)]

    def put(self, E, st, I, args):
        self.puts.add(where(I))
        if st.prop[0]:
            self.bad(E, st, I, "twice", "an element is stored a second time")
        if self.const_flags(E, st, args) != 2:      # DB_APPEND
            self.bad(E, st, I, "append", "an element is stored without being appended at the end of the queue")
        self.limit(E, st, I)
        a, b, f = self.outcomes(E, st, I, put=st.prop[0] + 1)
        return [(a, ("c", 0)), (b, f)]

    def const_flags(self, E, st, args):
        return E.const(st, args[4])

    def limit(self, E, st, I):
        n, h = self.cell(E, st, self.cn, 4), self.cell(E, st, self.hard, 4)
        if h is None or not (st.hi(h) <= 0 or n is not None and st.diff_ub(n, h) <= -1):
            self.bad(E, st, I, "hardlimit", "an element is stored on a path that does not establish that the hard limit is not reached")
        else:
            self.chk.ok("below the hard limit when stored", where(I))

    def get(self, E, st, I, args):
        self.gets.add(where(I))
        n = self.cell(E, st, self.cn, 4)
        if n is None or E.decide(st, "ne", n, ("c", 0), 32) is not True:
            self.bad(E, st, I, "empty", "an element is asked for although the queue may be empty")
        if self.const_flags(E, st, args) not in (4, 5):
            self.bad(E, st, I, "consume", "an element is read without being removed from the queue")
        if st.prop[1]:
            self.bad(E, st, I, "twice", "a second element is removed although only one is handed on")
        buf = self.dbtval(E, st, args[3], "data")
        a, b, f = self.outcomes(E, st, I, got=st.prop[1] + 1, buf=buf)
        if buf is not None and buf[0] == "s":
            for k in [k for k in a.mem if E.root(k[0]) == E.root(buf[1])]:
                del a.mem[k]
        return [(a, ("c", 0)), (b, f)]

    def on_ret(self, E, st, I, val):
        p = st.prop
        if p[2] != p[0] - p[1]:
            self.bad(E, st, I, "count", "%d element(s) stored and %d taken, but their number changes by %d" % (p[0], p[1], p[2]))
        else:
            self.chk.ok("the number of elements follows what was stored or taken", self.root)
        may = lambda k: E.decide(st, "eq", val, ("c", k), 32) is not False
        self.result(E, st, I, val, p, may)

    def result_snd(self, E, st, I, p, may, ok, softok=True):
        good = may(0) or may(1)
        if ok and (may(2) or may(-1)):
            self.bad(E, st, I, "refused", "an element that was stored is reported as refused")
        elif not ok and good:
            self.bad(E, st, I, "accepted", "success is reported although the element was not stored")
        else:
            self.chk.ok("status of the sender agrees with what was stored", self.root)
        if ok and softok and (may(0) != may(1)):
            n, s = self.cell(E, st, self.cn, 4), self.cell(E, st, self.soft, 4)
            over = n is not None and s is not None and st.lo(s) >= 1 and st.diff_ub(s, n) <= 0
            under = s is not None and (st.hi(s) <= 0 or n is not None and st.diff_ub(n, s) <= -1)
            if may(1) and not over or may(0) and not under:
                self.bad(E, st, I, "softlimit", "the soft limit is %s" % ("reported although it may not be reached" if may(1) else "not reported although it may be reached"))
            else:
                self.chk.ok("soft limit reported as it is", self.root)

    def result_rcv(self, E, st, I, p, may):
        if may(0) and not p[1]:
            self.bad(E, st, I, "nothing", "success is reported although no element was taken")
        elif p[1] and may(1):
            self.bad(E, st, I, "lost", "an element was taken from the queue but the queue is reported as empty")
        elif may(1) and not p[1]:
            n = self.cell(E, st, self.cn, 4)
            if n is None or E.const(st, n) != 0 and E.decide(st, "eq", n, ("c", 0), 32) is not True:
                self.bad(E, st, I, "notempty", "the queue is reported as empty although it may hold elements")
            else:
                self.chk.ok("reported as empty only if it is", self.root)
        else:
            self.chk.ok("status of the receiver agrees with what was taken", self.root)


class QSnd(Queue):
    st_, hf = "nbspq_st", ("dbp",)

    def __init__(self, chk, m, root):
        Queue.__init__(self, chk, m, root)
        self.hard = ("nbsp_qtable_st", off(m, "nbsp_qtable_st", "hardlimit"))
        self.soft = ("nbsp_qtable_st", off(m, "nbsp_qtable_st", "softlimit"))

    def put(self, E, st, I, args):
        r = Queue.put(self, E, st, I, args)
        if self.dbtval(E, st, args[3], "data") != ("s", ("a", 2), 0) or self.dbtval(E, st, args[3], "size") != ("s", ("a", 3), 0):
            self.bad(E, st, I, "data", "what is stored is not the element that was handed over")
        return r

    def result(self, E, st, I, val, p, may):
        self.result_snd(E, st, I, p, may, p[0] == 1)


class QRcv(QSnd):
    def result(self, E, st, I, val, p, may):
        self.result_rcv(E, st, I, p, may)
        if p[1] and may(0):
            got = E.peek(st, ("s", ("a", 2), 0))
            if p[4] is None or got != p[4]:
                self.bad(E, st, I, "handed", "the element taken from the queue is not the one handed on")
            else:
                self.chk.ok("the element taken is handed on", self.root)


class PSnd(Queue):
    st_, hf = "pctldb_st", ("dbp", "mfdbp")

    def __init__(self, chk, m, root, size=None, total=None, limit=None):
        Queue.__init__(self, chk, m, root)
        o = lambda f: (self.st_, off(m, self.st_, f))
        self.hard, self.soft = o("hardlimit"), o("softlimit")
        self.total, self.mfhard, self.mfsoft = o("mf_total_size"), o("mf_hardlimit_mb"), o("mf_softlimit_mb")
        self.recsize = o("pce_data_size")
        self.key = off(m, "pctl_element_st", "tsqueue")
        self.mf = off(m, "pctl_element_st", "mf")
        self.mp = off(m, "memfile_st", "p")
        self.size, self.tot, self.limit_ = size, total, limit
        self.mem = set()

    def load_value(self, E, st, I, addr, size, cls):
        if cls == self.total and self.tot is not None:
            if isinstance(self.tot, int):
                return ("c", self.tot)
            return E.rng(st, E.fresh(st, I), self.tot[0], self.tot[1])
        if cls == self.mfhard and self.limit_ is not None:
            return ("c", self.limit_)
        if cls == self.hard and self.limit_ is not None:
            return ("c", 0)
        if cls in (self.hard, self.soft):
            return E.rng(st, E.fresh(st, I), 0, BIG)
        return Queue.load_value(self, E, st, I, addr, size, cls)

    def on_call(self, E, st, I, name, args):
        if name == "get_memfile_data_size":
            return [(st, ("c", self.size) if self.size is not None else E.rng(st, E.fresh(st, I), 0, BIG))]
        return Queue.on_call(self, E, st, I, name, args)

    def limit(self, E, st, I):
        if self.limit_ is None:
            Queue.limit(self, E, st, I)
        else:
            self.mem.add(where(I))

    def put(self, E, st, I, args):
        r = Queue.put(self, E, st, I, args)
        if self.dbtval(E, st, args[3], "data") != ("s", ("a", 1), 0):
            self.bad(E, st, I, "data", "the record stored is not the element that was handed over")
        return r

    def db(self, E, st, I, op, h, args):
        if h == "mfdbp" and op == "put":
            if self.dbtval(E, st, args[2], "data") != ("s", ("a", 1), self.key):
                self.bad(E, st, I, "key", "the data of the element are stored under a key that is not the one in its record")
            mf = E.peek(st, ("s", ("a", 1), self.mf))
            if mf is None or self.dbtval(E, st, args[3], "data") != E.peek(st, ("s", mf[1], mf[2] + self.mp)):
                self.bad(E, st, I, "mfdata", "the data stored with the element are not its data")
            a, b, f = self.outcomes(E, st, I, put2=st.prop[5] + 1, buf=self.dbtval(E, st, args[3], "size"))
            return [(a, ("c", 0)), (b, f)]
        return Queue.db(self, E, st, I, op, h, args)

    def result(self, E, st, I, val, p, may):
        self.result_snd(E, st, I, p, may, p[0] == 1 and p[5] == 1, False)
        if isinstance(self.tot, int) and p[5] == 1:
            t = self.cell(E, st, self.total, 8)
            want = self.tot + self.size
            if t is None or E.const(st, t) != want:
                self.bad(E, st, I, "total", "the total size of the queued data does not grow by the size of the data stored")
            else:
                self.chk.ok("total size grows by what was stored", self.root)


class PSoft(PSnd):
    """number of elements against the soft limit, no memory limit"""

    def load_value(self, E, st, I, addr, size, cls):
        if cls == self.mfsoft:
            return ("c", 0)
        return PSnd.load_value(self, E, st, I, addr, size, cls)

    def result(self, E, st, I, val, p, may):
        self.result_snd(E, st, I, p, may, p[0] == 1 and p[5] == 1, True)


class PRcv(PSnd):
    """tot and size: total size before, and size of the data found"""

    def db(self, E, st, I, op, h, args):
        if h != "mfdbp":
            return Queue.db(self, E, st, I, op, h, args)
        if self.dbtval(E, st, args[2], "data") != ("s", ("a", 1), self.key):
            self.bad(E, st, I, "key", "the data of the element are looked up under a key that is not the one in its record")
        if op == "get":
            buf = self.dbtval(E, st, args[3], "data")
            E.havoc(st, [buf] if buf else [], set())
            a, b, f = self.outcomes(E, st, I, got2=st.prop[6] + 1, buf=buf)
            c = b.copy()
            sz = ("s", args[3][1], args[3][2] + self.dbt["size"])
            for s in (a, c):
                E.store(s, sz, ("c", self.size), 4, ("__db_dbt", self.dbt["size"]))
            out = [(a, ("c", 0)), (b, f), (c, ("c", -30999))]
            return out
        if op == "del":
            a, b, f = self.outcomes(E, st, I, del2=st.prop[7] + 1)
            return [(a, ("c", 0)), (b, f)]
        return Queue.db(self, E, st, I, op, h, args)

    def on_call(self, E, st, I, name, args):
        if name == "realloc_memfile":
            a, b = st.copy(), st.copy()
            for s in (a,):
                for k in [k for k, (v, n, c) in s.mem.items() if c and c[0] == "memfile_st"]:
                    del s.mem[k]
            return [(a, ("c", 0)), (b, ("c", -1))]
        return PSnd.on_call(self, E, st, I, name, args)

    def result(self, E, st, I, val, p, may):
        self.result_rcv(E, st, I, p, may)
        if not p[1]:
            return
        if not may(0):
            return
        mf = E.peek(st, ("s", ("a", 1), self.mf))
        if not p[6] or not p[7]:
            self.bad(E, st, I, "data", "success is reported although the data of the element were not %s" % ("found" if not p[6] else "removed from the store"))
        elif mf is None or mf != E.peek(st, ("s", ("al", "ghost mf"), 0)):
            self.bad(E, st, I, "mf", "the receiving element does not keep its own data buffer")
        else:
            self.chk.ok("record and data taken together", self.root)
        t = self.cell(E, st, self.total, 8)
        if t is None or E.const(st, t) != self.tot - self.size:
            self.bad(E, st, I, "total", "the total size of the queued data does not shrink by the size of the data taken")
        else:
            self.chk.ok("total size shrinks by what was taken", self.root)
        sz = E.peek(st, ("s", mf[1], mf[2] + off(self.m, "memfile_st", "size"))) if mf else None
        if sz is None or E.const(st, sz) != self.size:
            self.bad(E, st, I, "size", "the element is handed on with a size that is not that of its data")
        elif p[4] is None or p[4] != E.peek(st, ("s", mf[1], mf[2] + self.mp)):
            self.bad(E, st, I, "mfdata", "the data are not read into the buffer of the receiving element")
        else:
            self.chk.ok("data handed on with their size", self.root)

    def init(self, E, st):
        v = ("s", ("i", "ghost mf"), 0)
        st.mem[(("al", "ghost mf"), 0)] = (v, 8, None)
        st.mem[(("a", 1), self.mf)] = (v, 8, ("pctl_element_st", self.mf))
        return Queue.init(self, E, st)


class Caller(flow.Spec):
    """prop: outcome of the queue function"""

    def __init__(self, chk, fn, vals, okvals):
        self.chk, self.fn, self.vals, self.okvals = chk, fn, vals, okvals
        self.n = set()

    def init(self, E, st):
        return None

    def on_call(self, E, st, I, name, args):
        if name != self.fn:
            return None
        self.n.add(where(I))
        E.default_call(st, I, name, args)
        out = []
        for k in self.vals:
            s = st.copy()
            s.prop = k
            out.append((s, ("c", k)))
        return out

    def on_ret(self, E, st, I, val):
        if st.prop is None:
            return
        z = E.decide(st, "eq", val, ("c", 0), 32)
        want = st.prop in self.okvals
        if z is not want:
            self.chk.violation("%s:status" % E.f.name, I.file, I.line, E.f.name,
                               "result %d of %s is handed on as %s" % (st.prop, self.fn, "a failure" if want else "success"), E.path(st, I))
        else:
            self.chk.ok("status of %s handed on" % self.fn, E.f.name)


def check(chk):
    m, mods = chk.nbspd, chk.ctx.mods()
    chk.rule = ("an insertion is reached only below the limits; sender and receiver are told what was done; the counters change with what was done")
    puts = gets = 0
    mb = 1 << 20
    runs = [("nbspqt_snd", QSnd, {}), ("nbspqt_rcv", QRcv, {}),
            ("pctldb_send_pce", PSnd, {}), ("pctldb_send_pce", PSoft, {}), ("pctldb_send_pce", PSnd, dict(size=300, total=1000)),
            ("pctldb_rcv_pce", PRcv, dict(size=300, total=1000)), ("pctldb_rcv_pce", PRcv, dict(size=1000, total=1000))]
    keep = {"get_memfile_data_size", "get_memfile_allocated_size", "realloc_memfile", "oscompat_clock_gettime"}
    for root, cl, kw in runs:
        f = flat(chk, m, root, keep)
        s = cl(chk, m, root, **kw)
        chk.run_flow(f, s, mods=mods, K=250, KL=16)
        puts += len(s.puts)
        gets += len(s.gets)
    # the memory limit, at both sides of the bound
    for lim in (1, 50):
        for size in (1, 700, 5 * mb):
            for over in (True, False):
                L = lim * mb - size
                if L < -1 and not over:
                    continue
                tot = (max(L + 1, 0), 1 << 40) if over else L
                if not over and L < 0:
                    continue
                f = flat(chk, m, "pctldb_send_pce", keep)
                s = PSnd(chk, m, "pctldb_send_pce", size=size, total=tot, limit=lim)
                chk.run_flow(f, s, mods=mods, K=250, KL=16)
                if over and s.mem:
                    chk.violation("pctldb_send_pce:memlimit", f.file if hasattr(f, "file") else "pctldb.c", 0, "pctldb_send_pce",
                                  "an element is stored (%s) although its data would exceed the memory limit" % sorted(s.mem)[0])
                elif not over and not s.mem:
                    chk.violation("pctldb_send_pce:memlimit-refused", "pctldb.c", 0, "pctldb_send_pce",
                                  "an element is refused although its data fit in the memory limit")
                else:
                    chk.ok("memory limit %d MB, data of %d bytes: %s" % (lim, size, "refused" if over else "stored"), "pctldb_send_pce")
    chk.count("insertion sites", puts)
    chk.count("removal sites", gets)
    chk.atleast("insertion sites", 2)
    chk.atleast("removal sites", 2)
    n = 0
    for root, fn, vals, okv in (("e_nbspq_snd1", "nbspqt_snd", (0, 1, 2, -1), (0, 1)), ("e_nbspq_rcv1", "nbspqt_rcv", (0, 1, -1), (0,)),
                                ("connqueue_snd", "nbspqt_snd", (0, 2, -1), (0,)), ("connqueue_rcv", "nbspqt_rcv", (0, 1, -1), (0,)),
                                ("epctl_send", "pctldb_send_pce", (0, 1, 2, -1), (0, 1)), ("epctl_rcv", "pctldb_rcv_pce", (0, 1, -1), (0,))):
        f = flat(chk, m, root, {fn, "q_log_err", "pctldb_log_err"})
        s = Caller(chk, fn, vals, okv)
        chk.run_flow(f, s, mods=mods, K=250, KL=16)
        n += len(s.n)
    chk.count("status hand-over sites", n)
    chk.atleast("status hand-over sites", 6)
