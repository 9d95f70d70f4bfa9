"""helpers shared by the checks"""
import flow, ir
from core import AnalysisBroken

LOGS = ("log_", "update_stats_", "syslog", "vsyslog")


def off(m, struct, *fields):
    """byte offset of a (nested) field; the struct of each step is found from the debug info"""
    di = m.di()
    o = 0
    for k, f in enumerate(fields):
        x = di.offset(struct, f)
        if x is None:
            raise AnalysisBroken("field %s.%s not found" % (struct, f))
        o += x
        if k + 1 < len(fields):
            t = di.structs[struct][x][2]
            n = di.nodes.get(t, "")
            while "DW_TAG_typedef" in n or "DW_TAG_const" in n:
                import re
                t = re.search(r"baseType: (!\d+)", n).group(1)
                n = di.nodes.get(t, "")
            import re
            mm = re.search(r'name: "([^"]+)"', n)
            if not mm:
                raise AnalysisBroken("type of %s.%s not found" % (struct, f))
            struct = mm.group(1)
    return o


def callers_closure(m, names):
    """functions from which a call of one of names is reachable (direct calls)"""
    cg = {}
    for f in m.funcs():
        for I in f.calls():
            if I.x:
                cg.setdefault(I.x, set()).add(f.name)
    res, todo = set(), list(names)
    while todo:
        n = todo.pop()
        for c in cg.get(n, ()):
            if c not in res:
                res.add(c)
                todo.append(c)
    return res


def callees_closure(m, roots, refs=False):
    """refs: also the functions whose address is mentioned"""
    res, todo = set(), list(roots)
    while todo:
        n = todo.pop()
        if n in res or not m.has(n):
            continue
        res.add(n)
        for I in m.func(n).calls():
            if I.x:
                todo.append(I.x)
        if refs:
            todo += [o.v for I in m.func(n).instrs() for o in I.ops or () if getattr(o, "kind", None) == "f"]
    return res


def thread_roots(m):
    """functions started with pthread_create: {name: creating function}"""
    r = {}
    for f in m.funcs():
        for I in f.calls("pthread_create"):
            v = I.ops[2]
            if v.kind == "f":
                r[v.v] = f.name
    return r


def is_log(n):
    return n.startswith(LOGS)


def flat(chk, m, root, keep):
    """flatten root; keep: set of names or predicate. Log and statistics functions always stay calls."""
    k = keep if callable(keep) else (lambda n, s=set(keep): n in s)
    if not m.has(root):
        raise AnalysisBroken("function %s not found" % root)
    inl = ir.Inliner(m, lambda n: is_log(n) or k(n))
    f = inl.run(root)
    chk.functions.update(inl.inlined)
    return f


def where(I):
    return "%s:%d" % (I.file, I.line)


def live_funcs(m):
    """functions the program can run"""
    return callees_closure(m, ["main"] + sorted(m.address_taken()) + sorted(thread_roots(m)))
