"""D06 text that is not part of the program is never used as a format string"""
import allprogs
from util import *
EXPLANATION = ("The format argument of every call of the printf and scanf families, and of every function that hands a parameter on as a format, is "
               "traced back through the function and its callers; it must come from string constants of the program.")

SINKS = {"printf": 0, "vprintf": 0, "fprintf": 1, "vfprintf": 1, "dprintf": 1, "vdprintf": 1, "sprintf": 1, "vsprintf": 1, "snprintf": 2,
         "vsnprintf": 2, "asprintf": 1, "vasprintf": 1, "syslog": 1, "vsyslog": 1, "err": 1, "errx": 1, "warn": 0, "warnx": 0, "verr": 1, "verrx": 1,
         "vwarn": 0, "vwarnx": 0, "setproctitle": 0, "scanf": 0, "fscanf": 1, "sscanf": 1, "vscanf": 0, "vfscanf": 1, "vsscanf": 1,
         "gzprintf": 1, "Tcl_ObjPrintf": 0, "Tcl_AppendPrintfToObj": 1, "printf_unlocked": 0,
         "__printf_chk": 1, "__fprintf_chk": 2, "__sprintf_chk": 3, "__snprintf_chk": 4, "__vsnprintf_chk": 4, "__vfprintf_chk": 2, "__vsprintf_chk": 3,
         "__syslog_chk": 2, "__vsyslog_chk": 2, "__dprintf_chk": 2}


def sink(n):
    if n.startswith("__isoc99_") or n.startswith("__isoc23_"):
        n = n[9:]
    return SINKS.get(n)


def sources(v, seen=None):
    """where a value can come from"""
    seen = set() if seen is None else seen
    if v.kind == "ge":
        return sources(v.v[0], seen)
    if v.kind != "i":
        return {(v.kind, v.v)}
    I = v.v
    if I.id in seen:
        return set()
    seen.add(I.id)
    if I.op == "phi":
        return set().union(*[sources(o, seen) for o, b in I.ops])
    if I.op == "select":
        return sources(I.ops[1], seen) | sources(I.ops[2], seen)
    if I.op in ("gep", "bitcast"):
        return sources(I.ops[0], seen)
    return {("i", I)}


READERS = {"free", "strlen", "puts", "fputs", "strcmp", "strncmp", "strchr", "strrchr", "regfree"}
COPY = {"strcpy": 1, "strcat": 1, "strncpy": 1, "strncat": 1, "memcpy": 1, "memmove": 1, "stpcpy": 1, "strlcpy": 1, "strlcat": 1}


class Prog:
    def __init__(self, m):
        self.m = m
        self.par = {}         # function -> parameters used as formats
        self.stored = {}      # global -> values stored in it
        for f in m.funcs():
            for I in f.instrs():
                if I.op == "store" and I.ops[1].kind == "g":
                    self.stored.setdefault(I.ops[1].v, []).append((f, I.ops[0]))
                for o in (I.ops or ()):
                    o = o[0] if isinstance(o, tuple) else o
                    if getattr(o, "kind", None) == "g" and not (I.op == "load" or I.op == "store" and o is I.ops[1]):
                        self.stored.setdefault(o.v, []).append((f, None))

    def contents(self, f, B):
        """what a buffer of the function is filled with, or None"""
        r = set()
        for I in f.instrs():
            if I.op == "store" and I.ops[0].kind == "i" and ("i", B) in sources(I.ops[0]):
                return None
            if I.op == "store" and ("i", B) in sources(I.ops[1]):
                if I.x != 1 or I.ops[0].kind != "c" or I.ops[0].v == 37:
                    return None
            if I.op != "call" or I is B:
                continue
            at = [k for k, o in enumerate(I.ops) if ("i", B) in sources(o)]
            if not at or I.x in READERS:
                continue
            n = (I.x or "").split(".")[1] if (I.x or "").startswith("llvm.mem") else I.x
            if n == "memset":
                continue
            if n in COPY and at == [0]:
                r |= sources(I.ops[COPY[n]])
            elif n in ("sprintf", "snprintf") and at == [0]:
                for o in I.ops[1 if n == "sprintf" else 2:]:
                    if o.kind != "c":
                        r |= {s for s in sources(o) if not (s[0] == "i" and s[1].op in ("add", "sub", "mul", "zext", "sext", "trunc"))}
            elif n and (sink(n) is not None or self.par.get(n)) and all(k in self.fmts(I) for k in at):
                continue
            else:
                return None
        return r

    def format_args(self):
        ch = True
        while ch:
            ch = False
            for f in self.m.funcs():
                for I in f.calls():
                    for k in self.fmts(I):
                        if k < len(I.ops):
                            for s in self.origins(f, I.ops[k]):
                                if s[0] == "a" and s[1] not in self.par.setdefault(f.name, set()):
                                    self.par[f.name].add(s[1])
                                    ch = True

    def fmts(self, I):
        if not I.x:
            return ()
        k = sink(I.x)
        if k is not None:
            return (k,)
        return self.par.get(I.x, ())

    def origins(self, f, v):
        """sources of a format; a buffer stands for what is put into it"""
        r, todo, seen = set(), list(sources(v)), set()
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            if s[0] == "i" and (s[1].op == "alloca" or s[1].op == "call" and s[1].x in ("malloc", "calloc", "realloc")):
                c = self.contents(f, s[1])
                if c is not None:
                    todo += c
                    continue
            r.add(s)
        return r

    def constant(self, f, s, depth=3):
        """None if the source is a constant of the program, else what it is"""
        k, v = s
        if k == "a":
            return None if v in self.par.get(f.name, ()) else "a parameter"
        if k == "c" or k in ("n", "u", "undef"):
            return None
        if k == "g":
            if self.m.cstring(v) is not None:
                return None
            return "the array %s" % v
        if k == "i" and v.op == "load" and v.ops[0].kind == "g" and depth:
            # a variable that only ever refers to constants
            g = v.ops[0].v
            ini = self.m.pointee(g)
            if ini is not None and all(o is not None and all(self.constant(h, x, depth - 1) is None for x in sources(o))
                                       for h, o in self.stored.get(g, ())):
                return None
            return "the variable %s" % g
        if k == "i" and v.op == "load":
            return "memory"
        if k == "i" and v.op == "call":
            return "the result of %s()" % v.x
        if k == "i" and v.op == "alloca":
            return "a local array"
        return "a computed value"


def check(chk):
    chk.rule = "format argument => constant string of the program"
    import sys
    mods = {}
    for p, m, f, key, new in allprogs.each(chk):
        if p not in mods:
            mods[p] = Prog(m)
            mods[p].format_args()
            chk.count("programs")
        P = mods[p]
        chk.functions.add(f.name)
        n = {}
        for I in f.calls():
            for k in P.fmts(I):
                if k >= len(I.ops):
                    continue
                bad = [x for x in (P.constant(f, s) for s in P.origins(f, I.ops[k])) if x]
                if new:
                    chk.count("formats")
                n[I.x] = n.get(I.x, 0) + 1
                if bad:
                    chk.violation("%s:%s:%s:%d" % (f.file, f.name, I.x, n[I.x]), I.file, I.line, f.name, "the format of %s is %s" % (I.x, bad[0]))
                elif new:
                    chk.ok("constant format", where(I))
    chk.atleast("formats", 300)
