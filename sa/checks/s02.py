"""S02 the bytes stored are the product's, with the communications header treated as configured in every spool"""
import flow, proc
from util import *
EXPLANATION = ("Path-sensitive dataflow over the function that stores a product, for each spool type: the address and length "
               "handed to each store call are compared with the memory file's start and size, and the 24 byte communications "
               "control block must be omitted exactly when the configuration says so and the product has one.")


class Strip(flow.Spec):
    def __init__(self, chk, m, root, spt, strip, ccb):
        self.chk, self.m, self.root, self.spt, self.STRIP, self.CCB = chk, m, root, spt, strip, ccb
        self.op, self.osz = off(m, "memfile_st", "p"), off(m, "memfile_st", "size")
        self.g = off(m, "nbsp_globals", "spooltype")
        self.f = {off(m, "pctl_element_st", k): k for k in ("save_format", "f_has_ccb")}
        self.seen = {}

    def load_value(self, E, st, I, addr, size, cls):
        if cls == ("nbsp_globals", self.g):
            return ("c", self.spt)
        if cls and cls[0] == "pctl_element_st" and cls[1] in self.f:
            return ("s", ("pce", self.f[cls[1]]), 0)
        return None

    def init(self, E, st):
        st.add(flow.Z, ("pce", "f_has_ccb"), 0)
        st.add(("pce", "f_has_ccb"), flow.Z, 1)
        return None

    def prop_syms(self, p):
        return (("pce", "f_has_ccb"), ("pce", "save_format"))

    def on_call(self, E, st, I, name, args):
        if name not in proc.STORES:
            return None
        self.seen.setdefault(name, set()).add(where(I))
        k = None
        if name == "save_memfile":
            k = 0
        elif name == "save_memfile_skip":
            k = E.const(st, args[2])
        else:
            for key, (v, n, c) in st.mem.items():
                if c == ("memfile_st", self.op) and v[0] == "s" and args[1][0] == "s" and v[1] == args[1][1]:
                    d = args[1][2] - v[2]
                    sz = E.peek(st, ("s", key[0], key[1] - self.op + self.osz))
                    if sz is not None and sz[0] == "s":
                        want = ("s", sz[1], sz[2] - d)
                        if args[2] == want or E.decide(st, "eq", args[2], want) is True:
                            k = d
                        elif args[2][0] == "s" and args[2][1][:2] == ("op", "sub") and args[2][2] == 0 and \
                                args[2][1][2] == sz and args[2][1][3] == ("c", d):
                            k = d
                        elif args[2][0] == "s" and args[2][1][:2] == ("op", "add") and args[2][2] == 0 and \
                                args[2][1][2] == sz and args[2][1][3] == ("c", -d):
                            k = d
        sf = E.decide(st, "eq", ("s", ("pce", "save_format"), 0), ("c", self.STRIP))
        cc = E.decide(st, "eq", ("s", ("pce", "f_has_ccb"), 0), ("c", 1))
        strip = True if sf and cc else (False if sf is False or cc is False else None)
        good = k is not None and strip is not None and k == (self.CCB if strip else 0)
        if good:
            self.chk.ok("spool type %d: %s omits %d bytes (strip=%s)" % (self.spt, name, k, strip), where(I))
        else:
            what = ("not the complete content, nor the content without its control block" if k is None else
                    "%d bytes omitted although the control block must%s be stripped" % (k, "" if strip else " not")
                    if strip is not None else "%d bytes omitted without regard to the configured format" % k)
            self.chk.violation("store:%s:%s" % (name, self.spt), I.file, I.line, E.f.name, "%s stores %s" % (name, what), E.path(st, I))
        v = E.default_call(st, I, name, args)
        return [(st, v)]


def check(chk):
    m = chk.nbspd
    mods = chk.ctx.mods()
    chk.need(m, *proc.STORES)
    chk.rule = ("at each store call the bytes omitted are CCB_SIZE exactly when save_format is NO_CCB and the product has a "
                "control block, else none; the length is the rest of the memory file")
    strip = proc.macros(chk, "SAVEFORMAT_NO_CCB").get("SAVEFORMAT_NO_CCB")
    ccb = proc.macros(chk, "CCB_SIZE").get("CCB_SIZE")
    if strip is None or ccb is None:
        raise AnalysisBroken("format macros not found")
    # the smallest function from which every store function is reached
    best = None
    for f in m.funcs():
        c = callees_closure(m, [f.name])
        if {"save_memfile", "save_memfile_skip", "nbsp_mspoolbdb_insert", "nbsp_cspoolbdb_insert"} <= c:
            if best is None or len(c) < best[0]:
                best = (len(c), f.name)
    if not best:
        raise AnalysisBroken("no function stores products")
    root = best[1]
    f = flat(chk, m, root, proc.KEEP | {"e_open_product_file"})
    seen = {}
    for spt in sorted(proc.macros(chk, r"SPOOLTYPE_\w+").values()):
        s = Strip(chk, m, root, spt, strip, ccb)
        chk.run_flow(f, s, mods=mods, K=600)
        if not s.seen:
            raise AnalysisBroken("nothing is stored for spool type %d" % spt)
        for k, v in s.seen.items():
            seen.setdefault(k, set()).update(v)
    for k, v in seen.items():
        chk.count(k + " calls", len(v))
    for k in ("nbsp_mspoolbdb_insert", "nbsp_cspoolbdb_insert"):
        chk.atleast(k + " calls", 1)
