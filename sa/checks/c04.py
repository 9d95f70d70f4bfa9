"""C04 cancellation leaves nothing locked"""
import cancel, flow, locks, ops
from util import *
EXPLANATION = ("Context-sensitive walk of the call graph from every thread function whose thread can be cancelled, with the "
               "cancellation state (enabled/disabled) at every call; every lock held at a possible cancellation point while "
               "cancellation is enabled must be released by a cleanup handler of that thread, and neither a database "
               "operation nor the use of a read slot may be interrupted.")


def unlocks(m, fn):
    r = set()
    for n in callees_closure(m, [fn]):
        for I in m.func(n).calls("pthread_mutex_unlock"):
            c = flow.Engine.pclass(None, I.ops[0])
            if c:
                r.add(c)
    return r


def check(chk):
    m = chk.nbspd
    chk.rule = ("cancellation enabled at a call that may be a cancellation point => every lock held there is released by a "
                "registered cleanup handler; database methods and slot operations only with cancellation disabled")
    roots = cancel.cancelled_roots(m)
    la = locks.LockAnalysis(chk)
    C = cancel.Cancel(m)
    held = {}
    for n, s in la.results.items():
        h = held.setdefault(n, {})
        f = chk.nbspd.func(n)
        for name, l in s.under.items():
            for I, p in l:
                h.setdefault((name, where(I)), set()).update(x[1] for x in p)
        for I, ok, others, path in s.waits:
            h.setdefault((I.x, where(I)), set()).update(["own"])
    for r in sorted(roots):
        chk.functions.add(r)
        handlers = cancel.cleanup_handlers(m, r)
        rel = set()
        for x in handlers:
            rel |= unlocks(m, x)
        for n, s0 in sorted(C.walk(r)):
            f = m.func(n)
            at = C.at[(n, s0)]
            chk.functions.add(n)
            lockc = {flow.Engine.pclass(None, I.ops[0]) for I in f.calls(*locks.LOCK)}
            for I in f.calls():
                if I.id not in at:
                    continue
                chk.count("calls examined")
                if "E" not in at[I.id]:
                    continue
                o = ops.db_op(m, I)
                if o:
                    chk.violation("%s:%s:db:%s" % (r, n, o), I.file, I.line, n,
                                  "database operation %s can be interrupted by the cancellation of the thread (%s)" % (o, r))
                    continue
                if I.x in locks.WAIT or (I.x or "?", where(I)) in held.get(n, {}):
                    if not C.is_point(I.x):
                        continue
                    chk.count("cancellation points with a lock")
                    need = {flow.Engine.pclass(None, I.ops[locks.WAIT[I.x]])} if I.x in locks.WAIT else lockc
                    if None in need or not need <= rel:
                        chk.violation("%s:%s:held:%s" % (r, n, I.x), I.file, I.line, n,
                                      "the thread (%s) can be cancelled here with a lock held that no cleanup handler releases" % r)
                    else:
                        chk.ok("the lock held is released by the cleanup handler", where(I))
        chk.ok("cancelled thread walked", r)
        chk.count("cancelled threads")
    chk.atleast("cancelled threads", 3)
    chk.atleast("cancellation points with a lock", 1)
