"""Library operations that can fail, and the typestate 'an operation failed and nothing made up for it'."""
import flow
from util import *


def fptr_class(I):
    """(struct, offset) of the function pointer field an indirect call goes through"""
    v = I.name
    if I.x is None and v is not None and v.kind == "i" and v.v.op == "load":
        return flow.Engine.pclass(None, v.v.ops[0])
    return None


def fptr_field(m, I):
    c = fptr_class(I)
    if c and c[0] not in ("g", "al"):
        return (c[0], m.field(*c))
    return None


def db_op(m, I):
    """name of the Berkeley DB method called, or None"""
    f = fptr_field(m, I)
    if f and f[0] in ("__db", "__dbc", "__db_env", "__db_mpoolfile"):
        return f[1]
    return None


class OpSpec(flow.Spec):
    """prop: (failed operations outstanding, operations done); `ops` decides what may fail.
    ops(E, st, I, name, args, m) -> None, or a list of (tag, constraint) outcomes, where constraint is
    'zero', 'nonzero', 'neg', 'null', 'nonnull', 'full' (== args[n]) or 'short'."""

    def __init__(self, chk, m):
        self.chk, self.m = chk, m
        self.sites = {}

    def init(self, E, st):
        return (frozenset(), frozenset())

    def fork(self, E, st, I, name, args, outcomes):
        """outcomes: list of (kind, prop, [number of the operand])"""
        v = E.default_call(st, I, name, args)
        if v is None or v[0] != "s":
            v = E.fresh(st, I)
        out = []
        for o in outcomes:
            s = st.copy()
            kind = o[0]
            val = v
            if kind in ("zero", "null"):
                val = ("c", 0)
            elif kind in ("nonzero", "nonnull"):
                s.ne = s.ne | {(v[1], 0)}
                if kind == "nonnull":
                    E.rng(s, v, 1, None)
            elif kind == "neg":
                val = ("c", -1)
            elif kind == "any":
                pass
            elif kind == "full":
                val = E.ev(s, I.ops[o[2]])
            elif kind == "short":
                s.add(flow.Z, v[1], 0)
                if not E._assume(s, "slt", v, E.ev(s, I.ops[o[2]]), 64):
                    continue
            s.prop = o[1]
            out.append((s, val))
        return out
