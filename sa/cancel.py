"""Where can a thread that is cancelled be interrupted?  Context: (function, cancellation state)."""
import flow, ops
from core import AnalysisBroken
from util import *

# calls that never are cancellation points
SAFE = flow.PUREISH - {"close", "write", "open", "fclose", "closedir", "fprintf", "printf", "puts", "fputs", "fwrite", "fflush", "syslog",
                       "vsyslog", "sleep", "usleep", "log_info", "log_warn", "log_warnx", "log_verbose", "log_debug", "log_err2",
                       "log_errx_", "rename", "unlink", "mkdir", "access", "chdir", "kill"} | {
    "pthread_cond_signal", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_setcancelstate", "pthread_cond_init",
    "pthread_cond_destroy", "pthread_cond_broadcast", "clock_gettime", "gettimeofday", "snprintf", "sprintf", "vsnprintf",
    "realloc", "__errno_location", "memcpy", "strncpy", "strdup", "__assert_fail", "exit", "pthread_self", "__sigsetjmp", "_setjmp",
    "__pthread_register_cancel", "__pthread_unregister_cancel", "__pthread_unwind_next", "pthread_create", "abort"}


def succ_states(I, s):
    """s = (current, saved) at a pthread_setcancelstate"""
    a = I.ops[0]
    if a.kind == "c":
        return ("D", s[0]) if a.v == 1 else ("E", s[0])
    return (s[1], s[1])


class Cancel:
    def __init__(self, m):
        self.m = m
        self.blocking = self._cancelpoints()
        self.summ = {}
        self.at = {}            # (func, entry state) -> {instruction: set of states}

    def _cancelpoints(self):
        """program functions in which a cancellation point may be reached"""
        m = self.m
        own = set()
        calls = {}
        for f in m.funcs():
            calls[f.name] = set()
            for I in f.calls():
                if I.x is None:
                    if not (I.name is not None and I.name.kind == "i" and ops.fptr_class(I) is None):
                        own.add(f.name)
                elif m.has(I.x):
                    calls[f.name].add(I.x)
                elif I.x not in SAFE and not I.x.startswith("llvm."):
                    own.add(f.name)
        ch = True
        while ch:
            ch = False
            for n, c in calls.items():
                if n not in own and c & own:
                    own.add(n)
                    ch = True
        return own

    def is_point(self, name):
        if name is None:
            return True
        if self.m.has(name):
            return name in self.blocking
        return name not in SAFE and not name.startswith("llvm.")

    def run(self, fn, entry):
        """states at every instruction of fn entered in state entry; returns exit states"""
        k = (fn, entry)
        if k in self.summ:
            return self.summ[k]
        self.summ[k] = {(entry, entry)}
        f = self.m.func(fn)
        at = {}
        self.at[k] = at
        ins = {f.blocks[0].id: {(entry, entry)}}
        todo = [f.blocks[0]]
        out = set()
        while todo:
            b = todo.pop()
            ss = set(ins[b.id])
            for I in b.ins:
                at.setdefault(I.id, set()).update(x[0] for x in ss)
                if I.op == "call":
                    if I.x == "pthread_setcancelstate":
                        ss = {succ_states(I, s) for s in ss}
                    elif I.x and self.m.has(I.x):
                        n = set()
                        for s in ss:
                            for e in self.run(I.x, s[0]):
                                n.add((e[0], s[1]) if e[0] == s[0] else (e[0], s[0] if e[0] == "D" else s[1]))
                        ss = n or ss
                elif I.op == "ret":
                    out |= ss
            for s in b.succ:
                o = ins.setdefault(s.id, set())
                if not ss <= o:
                    o |= ss
                    todo.append(s)
        self.summ[k] = out or {(entry, entry)}
        return self.summ[k]

    def walk(self, root):
        """{(function, state)} reachable from root entered with cancellation enabled"""
        self.run(root, "E")
        seen, todo = set(), [(root, "E")]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            self.run(*k)
            f = self.m.func(k[0])
            for I in f.calls():
                if I.x and self.m.has(I.x):
                    for s in self.at[k].get(I.id, ()):
                        todo.append((I.x, s))
        return seen


def cleanup_handlers(m, fn):
    """functions run when fn is cancelled (pthread_cleanup_push)"""
    f = m.func(fn)
    r = set()
    preds = {}
    for b in f.blocks:
        for s in b.succ:
            preds.setdefault(s.id, []).append(b)
    for b in f.blocks:
        for i, I in enumerate(b.ins):
            if I.op == "call" and I.x == "__pthread_unwind_next":
                bs, k = [b], b
                while len(preds.get(k.id, ())) == 1 and len(preds[k.id][0].succ) == 1:
                    k = preds[k.id][0]
                    bs.append(k)
                for x in bs:
                    for J in x.ins:
                        if J.op == "call" and J.x and m.has(J.x):
                            r.add(J.x)
                        elif J.op == "call" and J.x is None and J.name is not None and J.name.kind == "f":
                            r.add(J.name.v)
    return r


def cancelled_roots(m):
    """thread functions whose thread some code cancels: those for which pthread_create and pthread_cancel use the same
    thread variable cannot be told apart statically, so: all thread functions that register a cleanup handler or test for
    cancellation and are created in a file (translation unit) that cancels threads"""
    cf = {f.file for f in m.funcs() if list(f.calls("pthread_cancel"))}
    return {n: c for n, c in thread_roots(m).items() if m.func(c).file in cf or m.func(n).file in cf}
