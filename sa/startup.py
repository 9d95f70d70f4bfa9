"""the start and the end of the daemon: main() and what it has registered with atexit(), as one history (shared by D01 and D04)"""
import flow
from util import *

EFF = {"pthread_create", "fork", "vfork", "socket", "bind", "mkfifo", "mkdir", "unlink", "rename", "daemon", "execl", "execv", "execvp", "execlp", "execve",
       "popen", "system", "db_env_create", "openlog"}
PRIV = {"setuid", "setgid", "setgroups", "initgroups", "setreuid", "setregid", "seteuid", "setegid", "setresuid", "setresgid"}
SCRIPT = {"Tcl_EvalFile", "Tcl_FSEvalFile", "Tcl_FSEvalFileEx"}
USER, GROUP, PIDF, FIFO, START, STOP = ("USER",), ("GROUP",), ("PIDF",), ("FIFO",), ("START",), ("STOP",)
FIELDS = {"user": USER, "group": GROUP, "pidfile": PIDF, "qstatefifo": FIFO, "startscript": START, "stopscript": STOP}
PW, GR, UID, GID = ("PW",), ("GR",), ("UID",), ("GID",)
ME, OTHER = 4242, 4243     # getpid() of this process and of another one
NAMES = ("gid", "sup", "uid", "failed", "lock", "written", "content", "fifo", "started", "quit")


class P(tuple):
    def __getattr__(self, n):
        return self[NAMES.index(n)]

    def set(self, **kw):
        return P(kw.get(n, v) for n, v in zip(NAMES, self))


class Spec(flow.Spec):
    """gid, sup, uid: changed; failed: a step of the change failed; lock: None/"created"/"own"/"refused"/"broken"/"removed"; written: bytes in the pid file;
    content: what was read of it; fifo: made here; started: the start script was executed; quit: must end with failure"""

    def __init__(self, m, ctx, kind, bad, good, init=None):
        self.m, self.kind, self.bad, self.good, self.init_state = m, kind, bad, good, init
        self.user, self.group = kind
        self.f = {off(m, "nbsp_globals", x): s for x, s in FIELDS.items()}
        self.uidf = ("passwd", off(m, "passwd", "pw_uid"))
        self.gidf = ("group", off(m, "group", "gr_gid"))
        # what strsplit_create() returns has an array
        self.argv = ("strsplit_st", off(m, "strsplit_st", "argv"))
        self.exits = []

    # ---- state
    def init(self, E, st):
        if self.init_state is not None:
            p, mem = self.init_state
            for k, v in mem:
                st.mem[k] = v
            return p
        # memory of the program at its start: zero or what the initialiser says is left to the code (unknown)
        for g in self.flags:
            st.mem[(("g", g), 0)] = (("c", 0), 4, ("g", g))
        return P((False, False, False, False, None, False, None, False, False, False))

    def prop_rename(self, p, m):
        return p

    def prop_syms(self, p):
        return (USER, GROUP, PIDF, FIFO, START, STOP, PW, GR, UID, GID, ("PIDW",), ("PIDR",))

    def fail(self, cat, k, E, st, I, msg):
        self.bad.setdefault((cat, k, where(I)), (I, E.path(st, I), msg))

    def ok(self, cat, what, I):
        self.good[(cat, what, where(I))] = I

    def load_value(self, E, st, I, addr, size, cls):
        if addr[0] != "s":
            return None
        if addr[1] == ("g", "g") and size == 8 and addr[2] in self.f:
            x = self.f[addr[2]]
            if x == USER and not self.user or x == GROUP and not self.group:
                return ("c", 0)
            E.rng(st, ("s", x, 0), 1, None)
            st.ne = st.ne | {(x, 0)}
            return ("s", x, 0)
        if addr[1] in (USER, GROUP, PIDF, FIFO, START, STOP) and addr[2] == 0 and size == 1:
            return ("c", 65)
        if cls == self.argv:
            v = E.fresh(st, I)
            st.ne = st.ne | {(v[1], 0)}
            return v
        if addr[1] == PW and addr[2] == self.uidf[1]:
            return ("s", UID, 0)
        if addr[1] == GR and addr[2] == self.gidf[1]:
            return ("s", GID, 0)
        return None

    # ---- rules
    def dropped(self, p):
        return (not self.user or p.uid) and (not self.group or p.gid and p.sup)

    def effect(self, E, st, I, what):
        p = st.prop
        if not self.dropped(p):
            self.fail("priv", "early", E, st, I, "%s before the configured user and groups were changed to" % what)
        elif p.failed:
            self.fail("priv", "failed", E, st, I, "%s although changing the user or a group failed" % what)
        else:
            self.ok("priv", "%s only with the configured user and groups" % what, I)

    def two(self, E, st, vals=(0, -1)):
        return [(st.copy(), ("c", v)) for v in vals]

    def on_call(self, E, st, I, name, args):
        p = st.prop
        path = args[0][1] if args and args[0][0] == "s" and args[0][2] == 0 else None
        if name in PRIV:
            out = []
            for s, v in self.two(E, st):
                q = s.prop
                if v[1]:
                    s.prop = q.set(failed=True)
                elif name == "setgid":
                    if args[0] != ("s", GID, 0):
                        self.fail("priv", "gid", E, s, I, "the group that is set is not one found for the configured name")
                    if q.uid:
                        self.fail("priv", "order", E, s, I, "the group is changed after the user")
                    s.prop = q.set(gid=True)
                elif name in ("setgroups", "initgroups"):
                    if q.uid:
                        self.fail("priv", "order", E, s, I, "the supplementary groups are changed after the user")
                    s.prop = q.set(sup=True)
                elif name == "setuid":
                    if args[0] != ("s", UID, 0):
                        self.fail("priv", "uid", E, s, I, "the user that is set is not the one found for the configured name")
                    if self.group and not (q.gid and q.sup):
                        self.fail("priv", "order", E, s, I, "the user is changed before the group and the supplementary groups were set")
                    else:
                        self.ok("priv", "the user is changed after the groups", I)
                    s.prop = q.set(uid=True)
                else:
                    raise AnalysisBroken("%s is not modelled" % name)
                out.append((s, v))
            return out
        if name in ("geteuid", "getuid"):
            # only root can set the supplementary groups
            a, b = st.copy(), st.copy()
            b.prop = p.set(sup=True)
            return [(a, ("c", 0)), (b, ("c", ME))]
        if name in ("getpwnam", "getgrnam"):
            s = st.copy()
            s.prop = p.set(failed=True)
            x = PW if name == "getpwnam" else GR
            if x == PW and args[0] != ("s", USER, 0):
                self.fail("priv", "name", E, st, I, "the user that is looked up is not the configured one")
            st.ne = st.ne | {(x, 0)}
            return [(st, ("s", x, 0)), (s, ("c", 0))]
        if name == "chdir" or name == "strsplit_create":
            v = E.default_call(st, I, name, args)
            return [(st, v)]
        if name in SCRIPT or name == "tcl_eval_file":
            if path == START:
                self.effect(E, st, I, "the start script is executed")
                st.prop = p.set(started=True)
            elif path == STOP:
                self.effect(E, st, I, "the stop script is executed")
            return None
        if name == "getpid":
            return [(st, ("c", ME))]
        if name == "daemon":
            self.effect(E, st, I, "the daemon detaches")
            if p.lock == "own" or p.written:
                self.fail("inst", "daemon", E, st, I, "the process changes its pid after its pid file was written")
            return self.two(E, st)
        if name == "open" and path == PIDF:
            fl = E.const(st, args[1])
            if fl is None or fl & 0o300 != 0o300:
                if fl is None or fl & 0o1103:
                    self.fail("inst", "excl", E, st, I, "the pid file is opened for writing without the guarantee that it did not exist")
                return None
            self.effect(E, st, I, "the pid file is created")
            a, b = st.copy(), st.copy()
            a.prop, b.prop = p.set(lock="created"), p.set(lock="refused", quit=True)
            self.ok("inst", "the pid file is created only if there is none", I)
            return [(a, ("c", 7)), (b, ("c", -1))]
        if name in ("stat", "lstat", "access") and path == PIDF:
            E.default_call(st, I, name, args)
            a, b = st.copy(), st.copy()
            b.prop = p.set(content="bad")
            return [(a, ("c", 0)), (b, ("c", -1))]
        if name == "fopen" and path == PIDF or name == "fdopen" and args[0] == ("c", 7):
            mode = self.text(args[1])
            w = mode is None or mode[0] in "wa" or "+" in mode
            if w and p.lock != "created":
                self.fail("inst", "overwrite", E, st, I, "the pid file is written by a process that did not create it")
            a, b = st.copy(), st.copy()
            if w:
                b.prop = p.set(lock="broken" if p.lock == "created" else p.lock, quit=True)
            else:
                b.prop = p.set(content="bad")
            f = ("PIDW",) if w else ("PIDR",)
            a.ne = a.ne | {(f, 0)}
            return [(a, ("s", f, 0)), (b, ("c", 0))]
        if args and name in ("fprintf", "fputs", "fwrite", "write", "dprintf", "fclose", "fflush", "fsync", "fscanf", "fgets", "__isoc99_fscanf", "vfprintf"):
            fs = [a for a in args if a[0] == "s" and a[1] in (("PIDW",), ("PIDR",))]
            if not fs and name in ("write", "dprintf") and args[0] == ("c", 7):
                fs = [("s", ("PIDW",), 0)]
            if not fs:
                return None
            fs = fs[0]
            if "scanf" in name:
                out = []
                for c, r in (("own", 1), ("other", 1), ("bad", 0), ("bad", -1)):
                    s = st.copy()
                    if r == 1:
                        E.store(s, args[2], ("c", ME if c == "own" else OTHER), 8, None)
                    s.prop = p.set(content=c)
                    out.append((s, ("c", r)))
                return out
            if name in ("fclose", "fflush"):
                a, b = st.copy(), st.copy()
                if fs[1] == ("PIDW",):
                    b.prop = p.set(lock="broken", quit=True)
                return [(a, ("c", 0)), (b, ("c", -1))]
            if name in ("fprintf", "dprintf", "write", "fwrite", "fputs"):
                a, b = st.copy(), st.copy()
                if p.lock != "created":
                    self.fail("inst", "overwrite", E, st, I, "the pid file is written by a process that did not create it")
                if name in ("fprintf", "dprintf") and ("c", ME) not in args[2:]:
                    self.fail("inst", "pid", E, st, I, "what is written to the pid file is not the pid of this process")
                else:
                    self.ok("inst", "the pid file holds the pid of the process that created it", I)
                a.prop, b.prop = p.set(written=True), p.set(lock="broken", quit=True)
                return [(a, None if name == "write" else ("c", 5)), (b, ("c", -1))]
            return None
        if name in ("unlink", "remove") and path in (PIDF, FIFO):
            return self.unlink(E, st, I, path)
        if name in ("mkfifo", "mknod") and path == FIFO:
            self.effect(E, st, I, "the fifo is made")
            if not self.locked(p):
                self.fail("inst", "fifo", E, st, I, "the fifo is made by a process that does not hold the pid file")
            a, b = st.copy(), st.copy()
            a.prop, b.prop = p.set(fifo=True), p.set(quit=True)
            return [(a, ("c", 0)), (b, ("c", -1))]
        if name in self.eff and self.phase == "main":
            self.effect(E, st, I, "%s is called" % name)
            if p.quit:
                self.fail("inst", "started", E, st, I, "%s is called although the pid file or the fifo could not be made" % name)
            elif name in self.threads and not self.locked(p):
                self.fail("inst", "early", E, st, I, "%s starts threads although the pid file is not held" % name)
        if name in self.mayexit:
            self.exit(E, st, I, None)
        return None

    def locked(self, p):
        return p.lock == "created" and p.written and not p.quit or p.lock == "own"

    def unlink(self, E, st, I, path):
        p = st.prop
        if path == FIFO:
            if not self.locked(p) and not p.fifo and p.lock not in ("created", "removed"):
                self.fail("inst", "fifo", E, st, I, "the fifo is removed by a process that does not hold the pid file: it may belong to a running instance")
            else:
                self.ok("inst", "the fifo is removed only by the process that holds the pid file", I)
            return None
        mine = p.lock in ("created", "broken", "own")
        if not mine:
            self.fail("inst", "remove", E, st, I, "the pid file is removed by a process that did not create it: it may belong to a running instance")
        elif self.phase == "end" and p.content != "own" and p.lock != "broken":
            self.fail("inst", "content", E, st, I, "the pid file is removed although what was read of it is not the pid of this process")
        else:
            self.ok("inst", "the pid file is removed only by the process that created it", I)
        a, b = st.copy(), st.copy()
        a.prop = p.set(lock="removed")
        b.prop = p.set(lock="kept")
        return [(a, ("c", 0)), (b, ("c", -1))]

    def text(self, v):
        return self.m.cstring(v[1][1]) if v[0] == "s" and v[2] == 0 and v[1][0] == "g" else None

    # ---- end of a phase
    def exit(self, E, st, I, val):
        p = st.prop
        if self.phase == "main":
            if val is not None and (p.failed or p.quit) and E.decide(st, "eq", val, ("c", 0)) is not False:
                self.fail("priv" if p.failed else "inst", "status", E, st, I, "the program may end with success although the start failed")
            mem = tuple(sorted(((k, v) for k, v in st.mem.items() if k[0][0] == "g" and v[0][0] == "c"), key=repr))
            self.exits.append((p, mem))
        else:
            if p.lock in ("created", "broken", "own"):
                if p.content in (None, "own") and not (p.content is None and p.lock == "refused"):
                    self.fail("inst", "left", E, st, I, "the process ends and leaves behind the pid file it created: the next start will be refused")

    def on_ret(self, E, st, I, val):
        self.exit(E, st, I, val)

    def on_exit(self, E, st, I, name):
        if name in ("_exit", "abort", "__assert_fail", "_Exit"):
            return
        self.exit(E, st, I, None)


def run(chk):
    """(bad, good): {(category, key, where): ...}"""
    m, mods = chk.nbspd, chk.ctx.mods()
    if not m.has("main"):
        raise AnalysisBroken("main not found")
    D = set()
    tcl = callers_closure(m, {I.x for f in m.funcs() for I in f.calls() if I.x and I.x.startswith("Tcl_")})
    fo = {off(m, "nbsp_globals", x) for x in FIELDS}
    conf, ini = set(), set()
    for f in m.funcs():
        n = set()
        for I in f.instrs():
            if I.op == "load" and I.ops[0].kind == "ge" and I.ops[0].v[0].kind == "g" and I.ops[0].v[0].v == "g" and I.ops[0].v[1] in fo:
                n.add(I.ops[0].v[1])
        if n:
            D.add(f.name)
        if len(n) == len(fo) or any(i.op == "store" and i.ops[1].kind == "ge" and i.ops[1].v[0].kind == "g" and i.ops[1].v[0].v == "g" and i.ops[1].v[1] in fo for i in f.instrs()):
            conf.add(f.name)
            if not n and f.name not in tcl:
                ini.add(f.name)
    # functions that read or check the configuration do nothing with it
    chk.counts["functions using the pid file, fifo, scripts, user or group"] = len(D)
    pure = callers_closure(m, EFF | PRIV | SCRIPT | {"fopen", "open", "tcl_eval_file"}) | EFF | PRIV
    D = {f for f in D - conf if f in pure or f in callers_closure(m, {"fopen", "unlink", "open"})}
    for x in PRIV | {"daemon"}:
        D |= {f for f in callers_closure(m, {x}) if f != "main"}
    up = callers_closure(m, D) | D
    down = set(callees_closure(m, [d for d in D]))
    ends = [o.v for f in m.funcs() for I in f.calls("atexit") for o in I.ops if o.kind == "f"]
    chk.counts["functions run at exit"] = len(ends)
    chk.atleast("functions run at exit", 1)
    quitf = {"set_quit_flag", "get_quit_flag"}
    keep = lambda n: not (n in up or n in down or n in quitf or n in PRIV or n in ini) or n in ("tcl_eval_file",)
    # the thread that waits for signals does nothing else
    sig = callers_closure(m, {"sigwait"}) | {"sigwait"}
    th = callers_closure(m, {f.name for f in m.funcs() for I in f.calls("pthread_create") if I.ops[2].kind != "f" or I.ops[2].v not in sig})
    th |= {f.name for f in m.funcs() for I in f.calls("pthread_create") if I.ops[2].kind != "f" or I.ops[2].v not in sig}
    eff = {n for n in callers_closure(m, EFF) if keep(n)}
    noex = callers_closure(m, {"exit", "errx", "err"})
    stat = set()
    for f in m.funcs():
        for I in f.instrs():
            if I.op == "store" and I.ops[1].kind == "g" and f.name in up | down | quitf:
                stat.add(I.ops[1].v)
    bad, good = {}, {}
    F = flat(chk, m, "main", keep)
    G = [flat(chk, m, e, keep) for e in ends]
    n = 0
    for kind in ((1, 1), (1, 0), (0, 1), (0, 0)):
        s = Spec(m, chk.ctx, kind, bad, good)
        s.phase, s.eff, s.threads, s.mayexit, s.flags = "main", eff, th, {x for x in noex if keep(x)}, stat
        e = flow.Engine(F, s, mods=mods, K=24, KL=4, max_steps=600000)
        e.run()
        if e.truncated:
            raise AnalysisBroken("main")
        todo = sorted(set(s.exits), key=repr)
        for g in G:
            nxt = set()
            for init in todo:
                n += 1
                t = Spec(m, chk.ctx, kind, bad, good, init)
                t.phase, t.eff, t.threads, t.mayexit, t.flags = "end", eff, th, (), stat
                x = flow.Engine(g, t, mods=mods, K=24, KL=4, max_steps=300000)
                x.run()
                if x.truncated:
                    raise AnalysisBroken(g.name)
    chk.counts["ways the start can end"] = n
    chk.atleast("ways the start can end", 4)
    return bad, good


def report(chk, cat):
    bad, good = run(chk)
    for k, I in good.items():
        if k[0] == cat:
            chk.ok(k[1], k[2])
    for k, (I, path, msg) in bad.items():
        if k[0] == cat:
            chk.violation("%s:%s" % (I.fn.name, k[1]), I.file, I.line, I.fn.name, msg, path)
