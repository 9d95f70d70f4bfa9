"""every function of every program, callees first; a function shared by several programs is looked at once"""
import flow, ir
from core import AnalysisBroken
from util import *


def bottom_up(m):
    """names of the defined functions, callees before callers"""
    order, seen = [], set()
    cg = {}
    for f in m.funcs():
        cg[f.name] = sorted({I.x for I in f.calls() if I.x and m.has(I.x)})
    for r in sorted(cg):
        if r in seen:
            continue
        st = [(r, iter(cg[r]))]
        seen.add(r)
        while st:
            n, it = st[-1]
            for c in it:
                if c not in seen and c in cg:
                    seen.add(c)
                    st.append((c, iter(cg[c])))
                    break
            else:
                order.append(n)
                st.pop()
    return order


def fkey(f):
    """identity of a function across programs"""
    for I in f.instrs():
        if I.file:
            return (f.file or I.file, f.name, f.line, sum(len(b.ins) for b in f.blocks))
    return (f.file, f.name, f.line, 0)


def each(chk, programs=None):
    """yields (program, module, function, new)"""
    seen = set()
    for p in programs or sorted(chk.ctx.programs()):
        m = chk.ctx.opt(p)
        for n in bottom_up(m):
            f = m.func(n)
            if not f.blocks:
                continue
            k = fkey(f)
            yield p, m, f, k, k not in seen
            seen.add(k)

