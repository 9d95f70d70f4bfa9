"""C02 no thread waits for a lock or a peer while it holds a lock"""
import flow, locks, ops
from util import *
EXPLANATION = ("Locks held at every call (path-sensitive lockset), propagated through the call graph: the order in which lock "
               "classes are nested must be acyclic, and no call that can block on a peer, a child or the clock may be reached "
               "with a lock held, other than waiting on a condition variable with just its own mutex.")
BLOCK = {"poll", "select", "sleep", "usleep", "nanosleep", "accept", "connect", "recv", "recvfrom", "send", "sendto", "sendmsg",
         "recvmsg", "waitpid", "wait", "system", "popen", "pclose", "pthread_join", "getaddrinfo", "gethostbyname", "sigwait", "pause"}


def check(chk):
    m = chk.nbspd
    chk.rule = "nesting order of lock classes acyclic; no blocking call with a lock held; condition waits hold only their own mutex"
    la = locks.LockAnalysis(chk)
    # what every function may acquire, wait for or block on
    acq, blk, calls = {}, {}, {}
    taken = m.address_taken()
    for f in m.funcs():
        a, b, c = {}, {}, set()
        for I in f.calls():
            if I.x in locks.LOCK:
                k = flow.Engine.pclass(None, I.ops[0]) or ("?", I.file)
                a.setdefault(k, where(I))
            elif I.x in locks.WAIT or I.x in BLOCK:
                b.setdefault(I.x, where(I))
            elif I.x is None:
                if ops.db_op(m, I) is None:
                    c |= {n for n, k in taken.items() if k == len(I.ops)}
            elif m.has(I.x):
                c.add(I.x)
        acq[f.name], blk[f.name], calls[f.name] = a, b, c
    ch = True
    while ch:
        ch = False
        for n in calls:
            for c in calls[n]:
                for t in (acq, blk):
                    for k, w in t.get(c, {}).items():
                        if k not in t[n]:
                            t[n][k] = w
                            ch = True
    edges = {}
    for n, s in la.results.items():
        chk.functions.add(n)
        f = s.func
        lc = {where(I): flow.Engine.pclass(None, I.ops[0]) for I in f.calls(*locks.LOCK)}
        cls = lambda h: lc.get(h[1])
        for _, h, mu, I in s.events:
            if h[0] != mu:
                edges.setdefault(cls(h), {}).setdefault(flow.Engine.pclass(None, I.ops[0]), (I, n))
        for name, l in s.under.items():
            for I, p in l:
                chk.count("calls with a lock held")
                if name in BLOCK:
                    chk.violation("%s:%s" % (n, name), I.file, I.line, n, "%s can block with a lock held" % name)
                if not m.has(name):
                    continue
                for k, w in acq[name].items():
                    for h in p:
                        edges.setdefault(cls(h), {}).setdefault(k, (I, n))
                for k, w in blk[name].items():
                    if k == "pthread_join":
                        # waiting for a thread is all right if that thread never wants the lock
                        j = w.split(":")[0]
                        ts = [t for t, c in thread_roots(m).items() if m.func(t).file == j or m.func(c).file == j]
                        want = set()
                        for t in ts:
                            want |= set(acq[t])
                        mine = {cls(h) for h in p}
                        if ts and not mine & want and None not in mine:
                            chk.ok("the threads joined (%s) never take the lock held" % ", ".join(ts), where(I))
                            continue
                    chk.violation("%s:%s:%s" % (n, name, k), I.file, I.line, n,
                                  "%s (called with a lock held) can block in %s at %s" % (name, k, w))
        for I, ok, others, path in s.waits:
            chk.count("condition waits")
            if not ok:
                chk.violation("%s:wait" % n, I.file, I.line, n, "waits on a condition without holding its mutex", path)
            elif others:
                chk.violation("%s:waitheld" % n, I.file, I.line, n, "waits on a condition while holding another lock", path)
            else:
                chk.ok("condition wait holds just its own mutex", where(I))
        chk.ok("no blocking call and no cycle under its locks", n)
    # cycles
    for a in edges:
        seen, todo = set(), [(b, [a]) for b in edges[a]]
        while todo:
            b, path = todo.pop()
            if b == a:
                I, n = edges[path[-1]][a]
                chk.violation("cycle:%s" % "/".join(sorted(str(x) for x in path)), I.file, I.line, n,
                              "locks are nested in a cycle: %s" % " -> ".join(str(x) for x in path + [a]))
                continue
            if b in seen:
                continue
            seen.add(b)
            todo += [(c, path + [b]) for c in edges.get(b, ())]
    chk.count("nested lock pairs", sum(len(x) for x in edges.values()))
    chk.atleast("condition waits", 3)
    chk.atleast("calls with a lock held", 20)
