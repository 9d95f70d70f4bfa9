"""Extent of buffers: what a write may touch, against what the object holds."""
import flow, ir
from flow import INF

# writers of the C library: (destination, size) argument numbers; size may be a product or a constant
WRITERS = {"memcpy": (0, 2), "memmove": (0, 2), "memset": (0, 2), "strncpy": (0, 2), "snprintf": (0, 1), "vsnprintf": (0, 1), "read": (1, 2),
           "pread": (1, 2), "recv": (1, 2), "recvfrom": (1, 2), "fgets": (0, 1), "gethostname": (0, 1), "inet_ntop": (2, 3), "strftime": (0, 1),
           "getcwd": (0, 1), "strlcpy": (0, 2), "strlcat": (0, 2), "bzero": (0, 1), "gzread": (1, 2), "readlink": (1, 2), "strerror_r": (1, 2)}


def linear(E, st, v, depth=6):
    """value -> ({symbol: coefficient}, constant)"""
    if v[0] == "c":
        return {}, v[1]
    if v[0] != "s":
        return None
    s, o = v[1], v[2]
    if s[0] == "op" and depth:
        if s[1] in ("add", "sub") and len(s) == 4:
            a, b = linear(E, st, s[2], depth - 1), linear(E, st, s[3], depth - 1)
            if a and b:
                k = 1 if s[1] == "add" else -1
                r = dict(a[0])
                for x, c in b[0].items():
                    r[x] = r.get(x, 0) + k * c
                return {x: c for x, c in r.items() if c}, a[1] + k * b[1] + o
        if s[1] in ("mul", "shl"):
            for a, b in ((s[2], s[3]), (s[3], s[2])):
                if b[0] == "c" and (s[1] == "mul" or b is s[3]) and a[0] == "s":
                    k = b[1] if s[1] == "mul" else 1 << b[1]
                    w = s[4] if len(s) > 4 else 64
                    if k > 0 and (w == 64 and st.lo(a) >= 0 or st.lo(a) * k >= -(1 << (w - 1)) and st.hi(a) * k < (1 << (w - 1))):
                        x = linear(E, st, a, depth - 1)
                        if x:
                            return {y: c * k for y, c in x[0].items()}, x[1] * k + o
        if s[1] == "zext" and len(s) == 4 and st.lo(s[2]) >= 0:
            x = linear(E, st, s[2], depth - 1)
            if x:
                return x[0], x[1] + o
    return {s: 1}, o


def slo(st, x, depth=4):
    """lower bound of a symbol: what is known of it, and what its form says"""
    b = st.lo(("s", x, 0))
    if x[0] == "op" and depth:
        f = lambda v: v[1] if v[0] == "c" else slo(st, v[1], depth - 1) + v[2]
        if x[1] == "zext":
            b = max(b, 0)
        elif x[1] in ("and", "lshr") and any(v[0] == "c" and v[1] >= 0 for v in x[2:4]):
            if x[1] == "and" or x[3][0] == "c" and x[3][1] > 0:
                b = max(b, 0)
        elif x[1] in ("shl", "mul") and x[3][0] == "c" and x[3][1] >= 0 and f(x[2]) >= 0 and shi(st, x, depth - 1) < INF // 2:
            b = max(b, 0)
        elif x[1] == "add" and len(x) == 4 and f(x[2]) >= 0 and f(x[3]) >= 0:
            b = max(b, f(x[2]) + f(x[3]))
    return b


def shi(st, x, depth=4):
    b = st.hi(("s", x, 0))
    if x[0] == "op" and depth:
        f = lambda v: v[1] if v[0] == "c" else shi(st, v[1], depth - 1) + v[2]
        if x[1] == "zext":
            if len(x) > 3 and isinstance(x[3], int):
                b = min(b, (1 << x[3]) - 1)
            if slo(st, x[2][1]) + x[2][2] >= 0 if x[2][0] == "s" else False:
                b = min(b, f(x[2]))
        elif x[1] == "and":
            for v in x[2:4]:
                if v[0] == "c" and v[1] >= 0:
                    b = min(b, v[1])
        elif x[1] in ("shl", "mul") and x[3][0] == "c" and x[3][1] >= 0:
            h = f(x[2])
            if h < INF // 2 and x[2][0] == "s" and slo(st, x[2][1], depth - 1) + x[2][2] >= 0:
                h = h << x[3][1] if x[1] == "shl" else h * x[3][1]
                if h < 1 << 31:
                    b = min(b, h)
    return b


def add(a, b, k=1):
    r = dict(a[0])
    for x, c in b[0].items():
        r[x] = r.get(x, 0) + k * c
    return {x: c for x, c in r.items() if c}, a[1] + k * b[1]


def upper(st, l, depth=5, E=None):
    """upper bound of a linear form over the zone"""
    best = INF
    if E is not None:
        # sums that occur in the program: what is known of them
        for S in list(st.D):
            if isinstance(S, tuple) and (S[:2] == ("op", "add") and len(S) == 4 or S[:2] == ("op", "zext")):
                y = linear(E, st, ("s", S, 0))
                if not y or not y[0] or S in y[0]:
                    continue
                n = l
                miss = [x for x, c in y[0].items() if l[0].get(x, 0) * c < c * c]
                if len(miss) == 1 and y[0][miss[0]] == 1:
                    # something smaller stands in its place
                    for p, k in l[0].items():
                        if k == 1 and p not in y[0]:
                            d = st.ub(p, miss[0])
                            if d < INF // 2:
                                n = add(add(n, ({p: 1}, 0), -1), ({miss[0]: 1}, d))
                                miss = []
                                break
                if not miss:
                    n = add(n, y, -1)
                    best = min(best, upper(st, add(n, ({S: 1}, 0)), depth))
    return min(best, _upper(st, l, depth))


def _upper(st, l, depth):
    t, c = l
    if not t:
        return c
    pos = [(x, k) for x, k in t.items() if k > 0]
    neg = [(x, k) for x, k in t.items() if k < 0]
    best = INF
    if depth:
        if pos:
            x, k = pos[0]
            cand = [((y, -kk), min(k, -kk)) for y, kk in neg]
            for (y, kk), m in cand:
                d = st.ub(x, y)
                if d < INF // 2:
                    n = dict(t)
                    n[x] -= m
                    n[y] += m
                    best = min(best, _upper(st, ({a: b for a, b in n.items() if b}, c + m * d), depth - 1))
            d = shi(st, x)
            if d < INF // 2:
                n = dict(t)
                del n[x]
                best = min(best, _upper(st, (n, c + k * d), depth - 1))
        else:
            x, k = neg[0]
            d = slo(st, x)
            if d > -INF // 2:
                n = dict(t)
                del n[x]
                best = min(best, _upper(st, (n, c + k * d), depth - 1))
    return best


class Engine(flow.Engine):
    """remembers which arrays the pointers go into"""

    def __init__(self, m, func, spec, **kw):
        self.m = m
        self.caps = {}
        super().__init__(func, spec, **kw)

    def step(self, st, I):
        if I.op == "gep":
            b = self.ev(st, I.ops[0])
            if b[0] == "s":
                for off, nv, size in self.m.gepcaps(I._h):
                    if nv == 0:
                        self.caps[(b[1], b[2] + off)] = size
                r = super().step(st, I)
                p = st.env.get(I.id)
                for off, nv, size in self.m.gepcaps(I._h):
                    if nv and nv == len(I.x[1]) and p and p[0] == "s":
                        self.caps[(p[1], p[2] + off - I.x[0])] = size
                return r
        elif I.op == "alloca":
            if I.ops and I.ops[0].kind == "c":
                self.caps[(("al", I.id), 0)] = I.x[0] * max(1, I.ops[0].v)
        elif I.op in ("load", "store", "call", "icmp"):
            for o in I.ops:
                if o.kind in ("g", "ge"):
                    self.gcaps(o)
        return super().step(st, I)

    def gcaps(self, o):
        base = o if o.kind == "g" else o.v[0]
        if base.kind != "g":
            return
        off = 0 if o.kind == "g" else o.v[1]
        for s, z in self.m.arrays_at(base.v, off):
            self.caps[(("g", base.v), s)] = z

    def extent(self, st, p):
        """(capacity, offset as linear form) of the array a pointer goes into"""
        if p[0] != "s":
            return None
        sym, l = p[1], ({}, p[2])
        while True:
            best = None
            const = l[1]
            for (s, start), size in self.caps.items():
                if s == sym and start <= max(const, 0) and (best is None or start > best[0]) and (not isinstance(size, int) or const < start + size):
                    best = (start, size)
            if best is not None and not (sym[0] == "ix" and False):
                return best[1], (l[0], l[1] - best[0])
            if sym[0] == "ix":
                l = (l[0], l[1] + sym[2])
                for x, sc in sym[3]:
                    y = linear(self, st, x)
                    if y is None:
                        return None
                    l = add(l, ({a: b * sc for a, b in y[0].items()}, y[1] * sc))
                # the constant part decides which array it is
                c0 = sym[2] + p[2]
                sym = sym[1]
                best = None
                for (s, start), size in self.caps.items():
                    if s == sym and start <= c0 and (best is None or start > best[0]) and (not isinstance(size, int) or c0 < start + size):
                        best = (start, size)
                if best is not None:
                    return best[1], (l[0], l[1] - best[0])
                continue
            return None

    def fits(self, st, p, size):
        """True, False (not shown), None (object of unknown size); and why"""
        x = self.extent(st, p)
        if x is None:
            return None, None
        cap, l = x
        z = linear(self, st, size)
        capl = ({}, cap) if isinstance(cap, int) else linear(self, st, cap)
        if z is None or capl is None:
            return False, (cap, l, size)
        # a direct bound of the size first
        end = add(l, z)
        over = add(end, capl, -1)
        hi = min(upper(st, over, E=self), upper(st, add(add(l, ({size[1]: 1}, size[2]) if size[0] == "s" else z), capl, -1)))
        if not isinstance(cap, int) and cap[0] == "s":
            hi = min(hi, upper(st, add(end, ({cap[1]: 1}, cap[2]), -1), E=self))
        lo = -upper(st, ({a: -b for a, b in l[0].items()}, -l[1]))
        ok = hi <= 0 and lo >= 0
        if ok and size[0] == "s" and st.lo(size) < 0:
            ok = False
        return ok, (cap, l, size, hi, lo)
