"""C01 lock balance"""
import locks
EXPLANATION = ("Path-sensitive lockset typestate over every function of nbspd that touches a pthread mutex "
               "(helpers with a net lock effect are inlined into their callers): each path is followed with "
               "the return values of the lock calls, so that 'locked' is tied to the status tests in the code.")


def check(chk):
    chk.rule = ("on every path: no lock of a held mutex, no unlock of a mutex not held, "
                "nothing held at the return of a function that is not a lock helper")
    la = locks.LockAnalysis(chk)
    for n, s in sorted(la.results.items()):
        f = s.func
        nlock = sum(1 for I in f.calls(*locks.LOCK))
        chk.count("lock calls", nlock)
        chk.count("unlock calls", sum(1 for I in f.calls(*locks.UNLOCK)))
        for I, p in s.double:
            chk.violation("%s:relock" % n, I.file, I.line, n, "locks a mutex this thread already holds", p)
        if n in la.wrappers:
            # the effect must be determined by the result
            for rc, d in s.rets.items():
                effs = {frozenset(x[0] for x in p) for p in d}
                if len(effs) > 1:
                    I, p = [v for k, v in d.items() if k][0]
                    chk.violation("%s:mixed:%s" % (n, rc), I.file, I.line, n,
                                  "returns (%s result) sometimes with and sometimes without the mutex held" % rc, p)
                else:
                    chk.ok("lock helper: effect determined by the result (%s)" % rc, n)
            continue
        for I, p in s.unheld:
            chk.violation("%s:unheld" % n, I.file, I.line, n, "unlocks a mutex that is not held on this path", p)
        bad = False
        for rc, d in s.rets.items():
            for p, (I, path) in d.items():
                if p:
                    bad = True
                    chk.violation("%s:held" % n, I.file, I.line, n,
                                  "returns with the mutex acquired at %s still held" % sorted(x[1] for x in p)[0], path)
        if not bad:
            chk.ok("balanced on every path (%d result classes)" % len(s.rets), "%s:%d %s" % (f.file, f.line, n))
    chk.count("functions with locks", len(la.results))
    chk.atleast("functions with locks", 12)
    chk.atleast("lock calls", 12)
