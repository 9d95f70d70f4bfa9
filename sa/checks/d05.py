"""D05 child processes: a forked child runs another program or ends at once; the parent waits for it"""
import flow
from util import *

EXPLANATION = ("From main and every thread the functions from which fork is reached are interpreted; at a fork the history splits into the parent, the child and the failure. "
               "The child may prepare and execute another program or call _exit; the parent has to wait for the pid it got before it goes on.")
FORK = {"fork", "vfork"}
EXEC = {"execl", "execlp", "execle", "execv", "execvp", "execve", "execvpe", "fexecve"}
WAITP = {"wait", "waitpid", "wait3", "wait4", "waitid"}
END = {"_exit", "_Exit", "exit", "abort", "err", "errx"}
NOT = {"pthread_mutex_lock", "pthread_create", "pthread_join", "pthread_cancel", "sleep", "usleep", "nanosleep", "poll", "select", "accept", "recv", "recvfrom", "recvmsg",
       "unlink", "rename", "popen", "pclose", "system", "Tcl_Eval", "Tcl_EvalFile", "fclose"}


class S(flow.Spec):
    """state: (depth: 0 the daemon, 1.. a child; children not awaited yet)"""

    def __init__(self, m, bad, good, root, never):
        self.m, self.bad, self.good, self.root, self.never = m, bad, good, root, never
        self.forks, self.known = set(), {}

    def init(self, E, st):
        return (0, frozenset())

    def prop_syms(self, p):
        return p[1]

    def prop_rename(self, p, m):
        return (p[0], frozenset(m.get(x, x) for x in p[1]))

    def state_key(self, E, st, b):
        return (st.prop, frozenset((i, v) for i, v in st.env.items() if v[0] == "c" and -2 <= v[1] < 64))

    def fail(self, k, E, st, I, msg):
        self.bad.setdefault((I.fn.name, k, where(I)), (I, E.path(st, I), msg))

    def ok(self, what, I):
        self.good[(what, where(I))] = I

    def idle(self, E, st, I, what):
        d, pend = st.prop
        if pend and not d:
            self.fail("zombie", E, st, I, "%s although a child process has not been waited for" % what)

    def on_call(self, E, st, I, name, args):
        d, pend = st.prop
        if name in FORK:
            self.forks.add(where(I))
            self.idle(E, st, I, "another process is made")
            if d >= 2:
                return []
            f, c, p = st.copy(), st.copy(), st
            c.prop = (d + 1, frozenset())
            v = E.fresh(p, I)
            E.rng(p, v, 1, (1 << 22) - 1)
            if not d:
                p.prop = (d, pend | {v[1]})
            return [(f, ("c", -1)), (c, ("c", 0)), (p, v)]
        if name in WAITP:
            if d:
                return None
            if name in ("wait", "wait3"):
                a = ("c", -1)
            else:
                a = args[1] if name == "waitid" else args[0]
            c = E.const(st, a)
            if a[0] == "s" and a[2] == 0 and a[1] in pend:
                fl = E.const(st, args[2]) if name == "waitpid" else 0
                if fl != 0:
                    return None      # may come back without having waited
                self.ok("the parent waits for the child it made", I)
                E.default_call(st, I, name, args)
                st.prop = (d, pend - {a[1]})
                return [(st, E.fresh(st, I) if I.w else None)]
            if c is not None and c <= 0:
                self.fail("any", E, st, I, "%s waits for any child: it may take the end of a filter or of the web server from pclose" % name)
            return None
        if name in END or name in self.never:
            if d:
                if name in ("_exit", "_Exit"):
                    self.ok("a child that does not run a program ends at once", I)
                    return []
                if name in END:
                    self.fail("exit", E, st, I, "a child process calls %s: it would run the cleanup of the daemon" % name)
                    return []
            return None
        if name in EXEC:
            if not d:
                self.fail("replace", E, st, I, "the daemon itself is replaced by another program")
            else:
                self.ok("only a child runs another program", I)
            return [(st, ("c", -1))]
        if name is None:
            return None
        if name in self.waits:
            self.idle(E, st, I, "%s is called" % name)
        if d and (name in NOT or name in self.no) and not is_log(name):
            self.fail("runs:" + name, E, st, I, "a child process goes on with the work of the daemon: it calls %s" % name)
            return []
        return None

    def on_ret(self, E, st, I, val):
        if st.prop[0]:
            self.fail("returns", E, st, I, "a child process returns from %s: it would run the cleanup of the daemon" % self.root)
        else:
            self.idle(E, st, I, "%s ends" % self.root)


def check(chk):
    m, mods = chk.nbspd, chk.ctx.mods()
    chk.rule = ("after fork the child calls exec* or _exit and nothing that belongs to the daemon; the parent waits for that pid, blocking, before its next fork, wait or end; "
                "nothing waits for any child; only children call exec*")
    live = live_funcs(m)
    forks = [(f, I) for f in sorted(live) for I in m.func(f).calls() if I.x in FORK]
    chk.counts["fork calls"] = len(forks)
    inl = callers_closure(m, FORK) | {f for f in callers_closure(m, WAITP | EXEC | {"_exit", "_Exit"}) if m.has(f)}
    no = callers_closure(m, NOT)
    waits = {"sleep", "poll", "select", "pthread_cond_wait", "pthread_cond_timedwait"}
    waits |= callers_closure(m, waits)
    bad, good, seen = {}, {}, set()
    n = 0
    roots = thread_roots(m)
    ptr = {f for f in m.address_taken() if f in callers_closure(m, FORK) and f in live} - set(roots)
    for t in ["main"] + sorted(roots) + sorted(ptr):
        if not callees_closure(m, [t]) & {f for f, _ in forks}:
            # waits and execs of other threads
            for g in sorted(callees_closure(m, [t])):
                for I in m.func(g).calls():
                    if I.x in EXEC:
                        chk.violation("%s:replace" % g, I.file, I.line, g, "the daemon itself is replaced by another program", [])
                    if I.x in ("wait", "wait3") or I.x in WAITP and I.ops[0].kind == "c" and I.x != "waitid":
                        chk.violation("%s:any" % g, I.file, I.line, g, "%s waits for any child" % I.x, [])
            chk.ok("makes no processes with fork", t)
            continue
        n += 1
        F = flat(chk, m, t, lambda x: x not in inl)
        s = S(m, bad, good, t, set())
        s.no, s.waits = no, waits
        E = flow.Engine(F, s, mods=mods, K=12, KL=6, max_steps=400000)
        E.run()
        if E.truncated:
            raise AnalysisBroken(t)
        seen |= s.forks
    chk.counts["functions (threads, or called through a pointer) that make processes with fork"] = n
    chk.counts["forks interpreted"] = len(seen)
    for f, I in forks:
        if where(I) not in seen:
            raise AnalysisBroken("the fork at %s was not reached" % where(I))
        chk.ok("both sides of the fork are followed", where(I))
    for k, I in good.items():
        chk.ok(*k)
    for k, (I, path, msg) in bad.items():
        chk.violation("%s:%s" % k[:2], I.file, I.line, I.fn.name, msg, path)
