"""M01 the daemon's descriptors and streams are closed exactly once, on every path"""
import own
from util import *
EXPLANATION = ("Bottom-up ownership analysis of every function of nbspd, all paths: each descriptor or stream that is opened, directly or by a "
               "called function, is closed, handed to the caller, or stored where it stays reachable, before the function returns; none is closed twice.")
KINDS = ("fd", "file", "pipe", "dir", "gz", "db")
WORDS = {"heap": "memory", "fd": "descriptor", "file": "stream", "pipe": "pipe", "dir": "directory stream", "gz": "compressed stream", "db": "database handle"}


def report(chk, kinds, minimum):
    m = chk.nbspd
    live = live_funcs(m)
    put, taken, arel, threads = {}, set(), set(), set()
    for p, f, s in own.run(chk, ["src/nbspd"]):
        if f.name not in live:
            continue
        for c, (k, w) in s.put.items():
            put.setdefault(w, (k, f, []))[2].append(c)
        taken |= s.taken
        threads |= {(f,) + t for t in s.threads}
        if any("rel" in e.get(0, ()) for e in s.eff.values()):
            arel.add(f.name)
        for (k, w), (I, path, n) in sorted(s.left.items(), key=str):
            if (n == 4) == ("fd" in kinds):
                chk.violation("%s:left:%s" % (f.name, k[1]), I.file, I.line, f.name,
                              "the caller's variable still refers to what was released at %s" % w, path)
        for w in sorted(s.acquired):
            if own_kind(s, w) in kinds:
                chk.count("acquisition sites")
                chk.ok("released, handed over or kept on every path", w)
        for (kind, w), (I, path, how) in sorted(s.leaks.items()):
            if kind in kinds and f.name != "main":
                chk.violation("%s:leak:%s" % (f.name, w.split(" at ")[0]), I.file if I else f.file, I.line if I else f.line, f.name,
                              "%s from %s is lost: %s" % (WORDS.get(kind, kind), w, how), path)
        for (kind, w), (I, path) in sorted(s.twice.items()):
            if kind in kinds:
                chk.violation("%s:twice:%s" % (f.name, w.split(" at ")[0]), I.file, I.line, f.name,
                              "%s from %s is released a second time" % (WORDS.get(kind, kind), w), path)
        for (kind, w), (I, path) in sorted(s.stale.items()):
            if kind in kinds:
                chk.violation("%s:stale:%s" % (f.name, w.split(" at ")[0]), I.file, I.line, f.name,
                              "%s from %s is used after it was released" % (WORDS.get(kind, kind), w), path)
    # what is kept in a member or global must have a place that releases it
    for w, (k, f, cs) in sorted(put.items()):
        if k not in kinds or f.name == "main":
            continue
        chk.count("owned members")
        if any(c in taken for c in cs):
            chk.ok("a member or global that owns a value has a place that releases it", w)
        else:
            chk.violation("%s:member:%s" % (f.name, w.split(" at ")[0]), f.file, f.line, f.name,
                          "%s from %s is kept in %s, but the value of that member is never released" % (
                              WORDS.get(k, k), w, ", ".join("%s+%s" % c for c in cs)))
    if "heap" in kinds:
        for f, t, w in sorted(threads, key=str):
            if arel & callees_closure(m, [t], True):
                chk.ok("the start routine of a thread releases the argument it owns", t)
            else:
                chk.violation("%s:thread:%s" % (f.name, t), f.file, f.line, f.name,
                              "memory from %s is handed to the thread %s, which does not release it" % (w, t))
    chk.atleast("acquisition sites", minimum)
    chk.atleast("functions interpreted", 500)


def own_kind(s, w):
    return s.kinds.get(w)


def check(chk):
    chk.rule = "every descriptor or stream opened is closed exactly once, or handed over"
    report(chk, KINDS, 30)
