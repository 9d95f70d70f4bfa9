"""LLVM IR access through libLLVM's C API (ctypes), converted to plain Python.

Only reading, inlining and clean-up passes are used; nothing is executed."""
import ctypes as C
import os
import re
from ctypes import c_char_p, c_int, c_longlong, c_size_t, c_uint, c_ulonglong, c_void_p, POINTER, byref

L = None
for cand in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so",
             "libLLVM-18.so", "libLLVM.so.18.1"):
    try:
        L = C.CDLL(cand)
        break
    except OSError:
        pass
if L is None:
    raise SystemExit("libLLVM-18 not found")

P = c_void_p


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


CtxCreate = _f("LLVMContextCreate", P)
MBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", c_int, c_char_p, POINTER(P), POINTER(c_char_p))
ParseBC = _f("LLVMParseBitcodeInContext2", c_int, P, P, POINTER(P))
CloneModule = _f("LLVMCloneModule", P, P)
DisposeModule = _f("LLVMDisposeModule", None, P)
PrintMod = _f("LLVMPrintModuleToString", P, P)
PrintVal = _f("LLVMPrintValueToString", P, P)
PrintType = _f("LLVMPrintTypeToString", P, P)
DisposeMsg = _f("LLVMDisposeMessage", None, P)
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
NamedFn = _f("LLVMGetNamedFunction", P, P, c_char_p)
FirstGlob = _f("LLVMGetFirstGlobal", P, P)
NamedGlobal = _f("LLVMGetNamedGlobal", P, P, C.c_char_p)
NextGlob = _f("LLVMGetNextGlobal", P, P)
GetInit = _f("LLVMGetInitializer", P, P)
IsGlobalConstant = _f("LLVMIsGlobalConstant", c_int, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstInst = _f("LLVMGetFirstInstruction", P, P)
NextInst = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", c_int, P)
NumOps = _f("LLVMGetNumOperands", c_int, P)
GetOp = _f("LLVMGetOperand", P, P, c_uint)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", c_uint, P)
ValueKind = _f("LLVMGetValueKind", c_int, P)
CIntZ = _f("LLVMConstIntGetZExtValue", c_ulonglong, P)
CIntS = _f("LLVMConstIntGetSExtValue", c_longlong, P)
ICmpPred = _f("LLVMGetICmpPredicate", c_int, P)
GepTy = _f("LLVMGetGEPSourceElementType", P, P)
StructName = _f("LLVMGetStructName", c_char_p, P)
NStructEl = _f("LLVMCountStructElementTypes", c_uint, P)
StructEl = _f("LLVMStructGetTypeAtIndex", P, P, c_uint)
ElemTy = _f("LLVMGetElementType", P, P)
ArrLen = _f("LLVMGetArrayLength2", c_ulonglong, P)
GetTD = _f("LLVMGetModuleDataLayout", P, P)
OffsetOf = _f("LLVMOffsetOfElement", c_ulonglong, P, P, c_uint)
ABISize = _f("LLVMABISizeOfType", c_ulonglong, P, P)
NInc = _f("LLVMCountIncoming", c_uint, P)
IncV = _f("LLVMGetIncomingValue", P, P, c_uint)
IncB = _f("LLVMGetIncomingBlock", P, P, c_uint)
NSucc = _f("LLVMGetNumSuccessors", c_uint, P)
Succ = _f("LLVMGetSuccessor", P, P, c_uint)
Called = _f("LLVMGetCalledValue", P, P)
NArgs = _f("LLVMGetNumArgOperands", c_uint, P)
DLine = _f("LLVMGetDebugLocLine", c_uint, P)
DFile = _f("LLVMGetDebugLocFilename", c_void_p, P, POINTER(c_uint))
VName = _f("LLVMGetValueName2", c_void_p, P, POINTER(c_size_t))
Linkage = _f("LLVMGetLinkage", c_int, P)
SetLinkage = _f("LLVMSetLinkage", None, P, c_int)
IsDecl = _f("LLVMIsDeclaration", c_int, P)
GetNSW = _f("LLVMGetNSW", c_int, P)
GetNUW = _f("LLVMGetNUW", c_int, P)
ConstOp = _f("LLVMGetConstOpcode", c_int, P)
AllocTy = _f("LLVMGetAllocatedType", P, P)
GlobTy = _f("LLVMGlobalGetValueType", P, P)
IsCStr = _f("LLVMIsConstantString", c_int, P)
AsStr = _f("LLVMGetAsString", c_void_p, P, POINTER(c_size_t))
NParams = _f("LLVMCountParams", c_uint, P)
GetParam = _f("LLVMGetParam", P, P, c_uint)
AttrKind = _f("LLVMGetEnumAttributeKindForName", c_uint, c_char_p, c_size_t)
MkAttr = _f("LLVMCreateEnumAttribute", P, P, c_uint, c_ulonglong)
AddAttr = _f("LLVMAddAttributeAtIndex", None, P, c_uint, P)
RmAttr = _f("LLVMRemoveEnumAttributeAtIndex", None, P, c_uint, c_uint)
PBO = _f("LLVMCreatePassBuilderOptions", P)
RunPasses = _f("LLVMRunPasses", P, P, c_char_p, P, P)
ErrMsg = _f("LLVMGetErrorMessage", c_void_p, P)
TermOf = _f("LLVMGetBasicBlockTerminator", P, P)
GetAggEl = _f("LLVMGetAggregateElement", P, P, c_uint)
IsVarArg = _f("LLVMIsFunctionVarArg", c_int, P)
FnType = _f("LLVMGlobalGetValueType", P, P)
GetSub = _f("LLVMGetSubprogram", P, P)
SubLine = _f("LLVMDISubprogramGetLine", c_uint, P)
ScopeFile = _f("LLVMDIScopeGetFile", P, P)
FileName = _f("LLVMDIFileGetFilename", c_void_p, P, POINTER(c_uint))
DelFn = _f("LLVMDeleteFunction", None, P)
UseFirst = _f("LLVMGetFirstUse", P, P)
UseNext = _f("LLVMGetNextUse", P, P)
UseUser = _f("LLVMGetUser", P, P)
NParams = _f("LLVMCountParams", c_uint, P)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 8: "add", 9: "fadd",
       10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem",
       18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext",
       33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext",
       39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call",
       46: "select", 49: "va_arg", 50: "extractelement", 51: "insertelement", 52: "shufflevector",
       53: "extractvalue", 54: "insertvalue", 55: "fence", 56: "cmpxchg", 57: "atomicrmw", 60: "addrspacecast",
       66: "fneg", 67: "callbr", 68: "freeze"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
# LLVMValueKind
VK_ARG, VK_BB, VK_FUNCTION, VK_ALIAS, VK_GLOBALVAR = 0, 1, 5, 6, 8
VK_CEXPR, VK_UNDEF, VK_NULL, VK_CINT, VK_CFP, VK_INST, VK_POISON = 10, 17, 19, 18, 20, 24, 25
# resolved below from probing, because enum positions differ between releases


def _s(p):
    if not p:
        return ""
    r = C.cast(p, c_char_p).value.decode("utf-8", "replace")
    DisposeMsg(p)
    return r


def _name(v):
    n = c_size_t()
    p = VName(v, byref(n))
    return C.string_at(p, n.value).decode("utf-8", "replace") if p else ""


class Val:
    __slots__ = ("kind", "w", "v", "uid")

    def __repr__(self):
        return "%s:%s" % (self.kind, "%%%d" % self.v.id if self.kind == "i" and hasattr(self.v, "id") else self.v)


class Instr:
    __slots__ = ("src", "id", "op", "w", "ops", "blk", "line", "file", "x", "name", "fn", "_h")

    def __repr__(self):
        return "%%%d=%s %s @%s:%d" % (self.id, self.op, self.x if isinstance(self.x, str) else "", self.file, self.line)


class Block:
    __slots__ = ("id", "ins", "succ", "pred", "name")


class Func:
    __slots__ = ("name", "blocks", "args", "decl", "ref", "internal", "line", "file", "ninstr", "vararg", "rw")

    def instrs(self):
        for b in self.blocks:
            for i in b.ins:
                yield i

    def calls(self, *names):
        for i in self.instrs():
            if i.op == "call" and (not names or i.x in names):
                yield i


def probe_kinds():
    """ValueKind numbers for this libLLVM."""
    g = globals()
    kinds = ["Argument", "BasicBlock", "MemoryUse", "MemoryDef", "MemoryPhi", "Function", "GlobalAlias",
             "GlobalIFunc", "GlobalVariable", "BlockAddress", "ConstantExpr", "ConstantArray", "ConstantStruct",
             "ConstantVector", "UndefValue", "ConstantAggregateZero", "ConstantDataArray", "ConstantDataVector",
             "ConstantInt", "ConstantFP", "ConstantPointerNull", "ConstantTokenNone", "MetadataAsValue",
             "InlineAsm", "Instruction", "PoisonValue", "ConstantTargetNone"]
    return {i: k for i, k in enumerate(kinds)}


KIND = probe_kinds()


class Module:
    def __init__(self, path=None, ref=None, ctx=None):
        self.ctx = ctx or CtxCreate()
        if ref is None:
            buf, msg = P(), c_char_p()
            if MBuf(path.encode(), byref(buf), byref(msg)):
                raise RuntimeError("cannot read %s" % path)
            m = P()
            if ParseBC(self.ctx, buf, byref(m)):
                raise RuntimeError("cannot parse %s" % path)
            ref = m.value
        self.ref = ref
        self.td = GetTD(self.ref)
        self._funcs = {}
        self._gl = None
        self._di = None
        self.k_ai = AttrKind(b"alwaysinline", 12)
        self.k_ni = AttrKind(b"noinline", 8)
        self.k_on = AttrKind(b"optnone", 7)

    def clone(self):
        return Module(ref=CloneModule(self.ref), ctx=self.ctx)

    def dispose(self):
        DisposeModule(self.ref)
        self.ref = None

    def passes(self, spec):
        o = PBO()
        e = RunPasses(self.ref, spec.encode(), None, o)
        if e:
            raise RuntimeError(C.cast(ErrMsg(e), c_char_p).value.decode())
        self._funcs = {}

    def fn_refs(self):
        f = FirstFn(self.ref)
        while f:
            yield f
            f = NextFn(f)

    def fn_names(self, defined=True):
        return [_name(f) for f in self.fn_refs() if not (defined and IsDecl(f))]

    def address_taken(self):
        """{name: number of parameters} of the defined functions whose address is used other than to call them"""
        if getattr(self, "_at", None) is None:
            r = {}
            for f in self.fn_refs():
                if IsDecl(f):
                    continue
                u = UseFirst(f)
                while u:
                    x = UseUser(u)
                    call = ValueKind(x) == 24 and Opcode(x) == 45
                    if call and Called(x) != f and _name(Called(x)) == "pthread_create":
                        call, x = False, None       # started as a thread, not called
                    if x is not None and (not call or Called(x) != f or any(GetOp(x, k) == f for k in range(NArgs(x)))):
                        r[_name(f)] = NParams(f)
                        break
                    u = UseNext(u)
            self._at = r
        return self._at

    def has(self, name):
        f = NamedFn(self.ref, name.encode())
        return bool(f) and not IsDecl(f)

    def flatten(self, roots, keep=(), only=None, inline=None, passes="function(sroa<modify-cfg>,early-cse,simplifycfg)"):
        """New module in which every non-kept project function is inlined into
        the roots.  keep: names (or predicate) that stay calls."""
        m = self.clone()
        keepf = keep if callable(keep) else (lambda n, k=set(keep): n in k)
        roots = set(roots)
        for f in list(m.fn_refs()):
            if IsDecl(f):
                continue
            n = _name(f)
            for k in (m.k_ni, m.k_on, m.k_ai):
                RmAttr(f, 0xFFFFFFFF, k)
            if n in roots:
                SetLinkage(f, 0)
                a = m.k_ni
            else:
                SetLinkage(f, 8)  # internal
                if inline is not None:
                    a = m.k_ai if (inline(n) and not keepf(n)) else m.k_ni
                else:
                    a = m.k_ni if (keepf(n) or IsVarArg(FnType(f))) else m.k_ai
            AddAttr(f, 0xFFFFFFFF, MkAttr(self.ctx, a, 0))
        m.passes("globaldce,always-inline,globaldce")
        if passes:
            m.passes(passes)
        m._di = self.di()
        return m

    # ---- conversion
    def func(self, name):
        if name in self._funcs:
            return self._funcs[name]
        f = NamedFn(self.ref, name.encode())
        if not f:
            return None
        r = self._conv(f, name)
        self._funcs[name] = r
        return r

    def funcs(self):
        for n in self.fn_names():
            yield self.func(n)

    def typ(self, t):
        k = TypeKind(t)
        if k == 0:
            return 0
        if k == 8:
            return IntWidth(t)
        if k == 12:
            return "p"
        if k in (2, 3, 4, 5, 6):
            return "f"
        return "agg"

    def structname(self, t):
        n = StructName(t)
        n = n.decode() if n else ""
        n = re.sub(r"^(struct|union)\.", "", n)
        return re.sub(r"\.\d+$", "", n)

    def val(self, v):
        r = Val()
        r.uid = v
        r.v = None
        k = KIND.get(ValueKind(v), "?")
        r.w = 0
        if k == "Instruction":
            r.kind, r.v = "i", v
        elif k == "Argument":
            r.kind, r.v = "a", v
        elif k == "ConstantInt":
            r.kind, r.w = "c", IntWidth(TypeOf(v))
            r.v = CIntS(v) if r.w <= 64 else 0
        elif k == "ConstantPointerNull":
            r.kind, r.v, r.w = "c", 0, "p"
        elif k == "Function":
            r.kind, r.v = "f", _name(v)
        elif k == "GlobalVariable":
            r.kind, r.v = "g", _name(v)
        elif k == "BasicBlock":
            r.kind, r.v = "b", v
        elif k == "ConstantExpr":
            op = OPC.get(ConstOp(v))
            if op == "gep":
                base = self.val(GetOp(v, 0))
                off, vi, fld = self.gepoff(v)
                r.kind = "ge"
                r.v = (base, off, fld)
            elif op in ("bitcast", "inttoptr", "ptrtoint", "trunc", "addrspacecast"):
                return self.val(GetOp(v, 0))
            else:
                r.kind = "u"
        elif k in ("UndefValue", "PoisonValue"):
            r.kind = "undef"
        elif k == "ConstantFP":
            r.kind = "fp"
        elif k == "MetadataAsValue":
            r.kind = "m"
        else:
            r.kind = "u"
        return r

    def gepoff(self, v):
        """constant byte offset, variable indices [(Val, scale)], last struct field (name, offset)"""
        t = GepTy(v)
        n = NumOps(v)
        off, vi, fld = 0, [], None
        first = True
        for i in range(1, n):
            o = GetOp(v, i)
            isc = KIND.get(ValueKind(o)) == "ConstantInt"
            if first:
                sz = ABISize(self.td, t) if TypeKind(t) != 0 else 1
                if isc:
                    off += CIntS(o) * sz
                else:
                    vi.append((self.val(o), sz))
                first = False
                continue
            k = TypeKind(t)
            if k == 10:  # struct
                ix = CIntZ(o)
                eo = OffsetOf(self.td, t, ix)
                off += eo
                fld = (self.structname(t), eo)
                t = StructEl(t, ix)
            else:
                t = ElemTy(t)
                sz = ABISize(self.td, t)
                if isc:
                    off += CIntS(o) * sz
                else:
                    vi.append((self.val(o), sz))
        return off, vi, fld

    def gepcaps(self, v):
        """arrays (and the final structure) that a getelementptr goes into: [(constant offset, variable indices before, size)]"""
        c = self._gc.get(v) if hasattr(self, "_gc") else None
        if c is not None:
            return c
        if not hasattr(self, "_gc"):
            self._gc = {}
        t = GepTy(v)
        off, nv, r = 0, 0, []
        for i in range(1, NumOps(v)):
            o = GetOp(v, i)
            isc = KIND.get(ValueKind(o)) == "ConstantInt"
            if i > 1:
                k = TypeKind(t)
                if k == 10:
                    ix = CIntZ(o)
                    off += OffsetOf(self.td, t, ix)
                    t = StructEl(t, ix)
                    if TypeKind(t) == 11:
                        r.append((off, nv, ABISize(self.td, t)))
                    continue
                t = ElemTy(t)
                if TypeKind(t) == 11 and not isc:
                    nv += 1
                    r.append((off, nv, ABISize(self.td, t)))
                    continue
            sz = ABISize(self.td, t) if TypeKind(t) != 0 else 1
            if isc:
                off += CIntS(o) * sz
            else:
                nv += 1
            if i == 1 and TypeKind(t) == 11:
                r.append((off, nv, ABISize(self.td, t)))
        self._gc[v] = r
        return r

    def arrays_at(self, name, off):
        """arrays of a global that contain an offset, outermost first (or the global itself)"""
        g = NamedGlobal(self.ref, name.encode())
        if not g or IsDecl(g):
            return []
        t, base = GlobTy(g), 0
        r = [(0, ABISize(self.td, t))]
        while True:
            k = TypeKind(t)
            if k == 11:
                r.append((base, ABISize(self.td, t)))
                t = ElemTy(t)
                n = ABISize(self.td, t)
                if not n:
                    return r
                base += (off - base) // n * n
            elif k == 10:
                ix = 0
                for j in range(NStructEl(t)):
                    if OffsetOf(self.td, t, j) <= off - base:
                        ix = j
                base += OffsetOf(self.td, t, ix)
                t = StructEl(t, ix)
            else:
                return r

    def _conv(self, f, name):
        F = Func()
        F.name, F.ref = name, f
        F.decl = bool(IsDecl(f))
        F.internal = Linkage(f) == 8
        F.vararg = bool(IsVarArg(FnType(f)))
        F.args = [GetParam(f, i) for i in range(NParams(f))]
        F.blocks = []
        F.line, F.file = 0, ""
        sp = GetSub(f)
        if sp:
            F.line = SubLine(sp)
            fl = ScopeFile(sp)
            if fl:
                n = c_uint()
                p = FileName(fl, byref(n))
                F.file = C.string_at(p, n.value).decode() if p else ""
        if F.decl:
            return F
        b = FirstBB(f)
        bmap = {}
        i = 0
        while b:
            B = Block()
            B.id, B.ins, B.succ, B.pred = i, [], [], []
            bmap[b] = B
            F.blocks.append(B)
            i += 1
            b = NextBB(b)
        nid = 0
        fcache = {}
        line, file = F.line, F.file
        for b, B in bmap.items():
            B.name = ""
            ii = FirstInst(b)
            while ii:
                op = OPC.get(Opcode(ii), "?")
                I = Instr()
                I.op, I.blk, I.x, I.fn, I._h, I.src = op, B, None, F, ii, name
                I.w = self.typ(TypeOf(ii))
                I.name = None
                ops = None
                if op == "call":
                    cv = Called(ii)
                    ck = KIND.get(ValueKind(cv))
                    I.x = _name(cv) if ck == "Function" else None
                    if I.x and I.x.startswith("llvm.dbg"):
                        ii = NextInst(ii)
                        continue
                    if I.x and (I.x.startswith("llvm.lifetime")):
                        ii = NextInst(ii)
                        continue
                    ops = [self.val(GetOp(ii, k)) for k in range(NArgs(ii))]
                    if I.x is None:
                        I.name = self.val(cv)
                elif op == "phi":
                    ops = [(self.val(IncV(ii, k)), bmap[IncB(ii, k)]) for k in range(NInc(ii))]
                elif op in ("br", "switch"):
                    ns = NSucc(ii)
                    succ = [bmap[Succ(ii, k)] for k in range(ns)]
                    if op == "br":
                        ops = [self.val(GetOp(ii, 0))] if ns == 2 else []
                        I.x = succ
                    else:
                        ops = [self.val(GetOp(ii, 0))]
                        cases = [(CIntS(GetOp(ii, 2 * k)), succ[k]) for k in range(1, ns)]
                        I.x = (succ[0], cases)
                    B.succ = list(dict.fromkeys(succ))
                else:
                    ops = [self.val(GetOp(ii, k)) for k in range(NumOps(ii))]
                    if op == "icmp":
                        I.x = PRED[ICmpPred(ii)]
                    elif op == "gep":
                        I.x = self.gepoff(ii)
                    elif op == "alloca":
                        t = AllocTy(ii)
                        I.x = (ABISize(self.td, t), self.structname(t) if TypeKind(t) == 10 else "")
                        I.name = _name(ii)
                    elif op in ("add", "sub", "mul", "shl"):
                        I.x = (bool(GetNSW(ii)), bool(GetNUW(ii)))
                    elif op == "load":
                        I.x = ABISize(self.td, TypeOf(ii))
                    elif op == "store":
                        I.x = ABISize(self.td, TypeOf(GetOp(ii, 0)))
                I.ops = ops
                ln = DLine(ii)
                if ln:
                    n = c_uint()
                    p = DFile(ii, byref(n))
                    if p:
                        key = (p, n.value)
                        file = fcache.get(key)
                        if file is None:
                            file = fcache[key] = C.string_at(p, n.value).decode()
                    line = ln
                I.line, I.file = line, file
                I.id = nid
                nid += 1
                B.ins.append(I)
                ii = NextInst(ii)
        F.ninstr = nid
        idm = {}
        for B in F.blocks:
            for I in B.ins:
                idm[I._h] = I
        am = {a: k for k, a in enumerate(F.args)}

        def fix(v):
            if v.kind == "i":
                v.v = idm.get(v.v, v.v)
            elif v.kind == "a":
                v.v = am[v.v]
            elif v.kind == "ge":
                fix(v.v[0])
        for B in F.blocks:
            for s in B.succ:
                s.pred.append(B)
            for I in B.ins:
                if I.op == "phi":
                    for v, _ in I.ops:
                        fix(v)
                else:
                    for v in I.ops:
                        fix(v)
                    if I.op == "gep":
                        for v, _ in I.x[1]:
                            fix(v)
                    if I.op == "call" and I.name is not None:
                        fix(I.name)
        return F

    def globals(self):
        g = FirstGlob(self.ref)
        while g:
            yield _name(g), g
            g = NextGlob(g)

    def gref(self, name):
        if self._gl is None:
            self._gl = dict(self.globals())
        return self._gl.get(name)

    def cstring(self, name):
        g = self.gref(name)
        if not g or IsDecl(g) or not IsGlobalConstant(g):
            return None
        ini = GetInit(g)
        if ini and KIND.get(ValueKind(ini)) == "ConstantDataArray" and IsCStr(ini):
            n = c_size_t()
            p = AsStr(ini, byref(n))
            return C.string_at(p, n.value).rstrip(b"\0").decode("latin1")
        if ini and KIND.get(ValueKind(ini)) == "ConstantAggregateZero":
            return ""
        return None

    def intarray(self, name):
        """(element size, values) of a constant array of integers, or None"""
        g = self.gref(name)
        if not g or IsDecl(g) or not IsGlobalConstant(g):
            return None
        t = re.search(r"constant \[\d+ x i(8|16|32|64)\] (\[.*\]|zeroinitializer)", _s(PrintVal(g)))
        if not t or t.group(2)[0] != "[":
            return None
        return int(t.group(1)) // 8, [int(x) for x in re.findall(r"i\d+ (-?\d+)", t.group(2))]

    def pointee(self, name):
        """string a global pointer is initialised to point at; "" for a null pointer; None if unknown"""
        g = self.gref(name)
        if not g or IsDecl(g):
            return None
        ini = GetInit(g)
        if not ini:
            return None
        k = KIND.get(ValueKind(ini))
        if k == "ConstantPointerNull":
            return ""
        v = self.val(ini)
        return self.str_of(v)

    def str_of(self, v):
        """C string constant behind an operand, or None"""
        if v.kind == "g":
            return self.cstring(v.v)
        if v.kind == "ge" and v.v[0].kind == "g":
            s = self.cstring(v.v[0].v)
            return s[v.v[1]:] if s is not None else None
        return None

    def text(self):
        return _s(PrintMod(self.ref))

    def vtext(self, ins):
        return _s(PrintVal(ins._h))

    # ---- debug info: struct member names
    def di(self):
        if self._di is None:
            self._di = DI(self.text())
        return self._di

    def field(self, struct, off):
        return self.di().field(struct, off)


class DI:
    """struct name -> {byte offset: (member name, size)} from the metadata text"""

    def __init__(self, text):
        self.nodes = {}
        for m in re.finditer(r"^(!\d+) = (?:distinct )?(![A-Za-z]*\(.*\)|!\{.*\})\s*$", text, re.M):
            self.nodes[m.group(1)] = m.group(2)
        self.structs, self.sizes = {}, {}
        att = lambda s, k: (re.search(r"\b%s: (\"[^\"]*\"|[^,)]+)" % k, s) or [None, None])[1]
        anon = {}
        for n, s in self.nodes.items():
            if s.startswith("!DIDerivedType(tag: DW_TAG_typedef"):
                b = att(s, "baseType")
                nm = att(s, "name")
                if b and nm:
                    anon.setdefault(b, nm.strip('"'))
        self.enums = {}
        for n, s in self.nodes.items():
            if s.startswith("!DIEnumerator("):
                nm, v = att(s, "name"), att(s, "value")
                if nm:
                    self.enums[nm.strip('"')] = int(v)
            if not s.startswith("!DICompositeType(tag: DW_TAG_structure_type"):
                continue
            nm = att(s, "name")
            nm = nm.strip('"') if nm else anon.get(n)
            el = att(s, "elements")
            if not nm or not el or el not in self.nodes:
                continue
            d = {}
            for e in re.findall(r"!\d+", self.nodes[el]):
                t = self.nodes.get(e, "")
                if "DW_TAG_member" in t:
                    d[int(att(t, "offset") or 0) // 8] = (att(t, "name").strip('"') if att(t, "name") else "",
                                                         int(att(t, "size") or 0) // 8, att(t, "baseType"))
            self.structs.setdefault(nm, d)
            self.sizes.setdefault(nm, int(att(s, "size") or 0) // 8)

    def size(self, struct):
        return self.sizes.get(struct)

    def field(self, struct, off):
        d = self.structs.get(struct)
        if d is None:
            return None
        return d.get(off, (None,))[0]

    def offset(self, struct, name):
        for o, x in self.structs.get(struct, {}).items():
            if x[0] == name:
                return o
        return None


class Inliner:
    """Flatten at the level of the Python IR (keeps every address computation,
    which LLVM's own inliner would fold away)."""

    def __init__(self, module, keep, limit=60000):
        self.m, self.keep, self.limit = module, keep, limit

    def run(self, root):
        self.F = Func()
        src = self.m.func(root)
        F = self.F
        F.name, F.ref, F.decl, F.internal, F.vararg = src.name, src.ref, False, src.internal, src.vararg
        F.args, F.line, F.file = src.args, src.line, src.file
        F.blocks = []
        self.n = 0
        self.inlined = {root}
        self.clone(src, None, (root,))
        for i, b in enumerate(F.blocks):
            b.id = i
            b.pred = []
            t = b.ins[-1]
            if t.op == "br":
                b.succ = list(dict.fromkeys(t.x))
            elif t.op == "switch":
                b.succ = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
            else:
                b.succ = []
        for b in F.blocks:
            for s in b.succ:
                s.pred.append(b)
        # drop unreachable blocks, number the instructions
        seen, todo = {F.blocks[0]}, [F.blocks[0]]
        while todo:
            for s in todo.pop().succ:
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        F.blocks = [b for b in F.blocks if b in seen]
        n = 0
        for i, b in enumerate(F.blocks):
            b.id = i
            b.pred = [p for p in b.pred if p in seen]
            for I in b.ins:
                I.id = n
                n += 1
                if I.op == "phi":
                    I.ops = [(v, p) for v, p in I.ops if p in seen]
        F.ninstr = n
        self._resolve()
        return F

    def newblock(self):
        b = Block()
        b.ins, b.succ, b.pred, b.name = [], [], [], ""
        b.id = -1
        self.F.blocks.append(b)
        return b

    def clone(self, src, args, stack):
        """append a copy of src; returns (entry block, [(ret Val, block)])"""
        self.n += src.ninstr
        if self.n > self.limit:
            raise RuntimeError("flattened function too large: %s" % self.F.name)
        head = {}
        tail = {}
        imap = {}
        rets = []
        fix = []          # instructions whose operands still refer to the source
        for b in src.blocks:
            head[b] = self.newblock()
        for b in src.blocks:
            cur = head[b]
            for I in b.ins:
                J = Instr()
                J.op, J.w, J.x, J.line, J.file, J.fn, J._h, J.name, J.id = I.op, I.w, I.x, I.line, I.file, self.F, I._h, I.name, -1
                J.src = I.src
                J.ops = I.ops
                J.blk = cur
                imap[I] = J
                if I.op == "call" and I.x and I.x not in stack and self.m.has(I.x) and not self.keep(I.x):
                    callee = self.m.func(I.x)
                    if not callee.vararg:
                        actual = _Actual(I.ops, imap, args)
                        self.inlined.add(I.x)
                        entry, crets = self.clone(callee, actual, stack + (I.x,))
                        br = self.mkbr(I, entry, cur)
                        cur.ins.append(br)
                        cont = self.newblock()
                        for v, rb in crets:
                            rb.ins.append(self.mkbr(I, cont, rb))
                        if I.w != 0 and crets:
                            if len(crets) == 1:
                                J.op, J.x, J.ops = "copy", None, [crets[0][0]]
                            else:
                                J.op, J.x = "phi", None
                                J.ops = [(v, rb) for v, rb in crets]
                            J.blk = cont
                            J.name = None
                            cont.ins.append(J)
                        elif I.w != 0:
                            J.op, J.x, J.ops, J.blk = "undefval", None, [], cont
                            cont.ins.append(J)
                        cur = cont
                        continue
                if I.op == "ret" and args is not None:
                    rets.append((self.tr(I.ops[0], imap, args) if I.ops else None, cur))
                    fix.append(("ret", len(rets) - 1, I))
                    continue
                if I.op == "br":
                    J.x = [head[s] for s in I.x]
                elif I.op == "switch":
                    J.x = (head[I.x[0]], [(c, head[t]) for c, t in I.x[1]])
                cur.ins.append(J)
                fix.append(("ins", J, I))
            tail[b] = cur
        for kind, J, I in fix:
            if kind == "ret":
                v, rb = rets[J]
                rets[J] = (self.tr(I.ops[0], imap, args) if I.ops else None, rb)
                continue
            if I.op == "phi":
                J.ops = [(self.tr(v, imap, args), tail[p]) for v, p in I.ops]
            else:
                J.ops = [self.tr(v, imap, args) for v in I.ops]
                if I.op == "gep":
                    J.x = (I.x[0], [(self.tr(v, imap, args), sc) for v, sc in I.x[1]], I.x[2])
                if I.op == "call" and I.name is not None:
                    J.name = self.tr(I.name, imap, args)
        return head[src.blocks[0]], rets

    def mkbr(self, I, tgt, blk):
        J = Instr()
        J.op, J.w, J.ops, J.x, J.line, J.file, J.fn, J._h, J.name, J.id, J.blk = "br", 0, [], [tgt], I.line, I.file, self.F, None, None, -1, blk
        J.src = I.src
        return J

    def tr(self, v, imap, args):
        if v.kind == "i":
            r = Val()
            r.kind, r.w, r.uid = "i", v.w, v.uid
            r.v = _Late(imap, v.v)
            return r
        if v.kind == "a" and args is not None:
            return args.get(v.v, self)
        if v.kind == "ge":
            b = self.tr(v.v[0], imap, args)
            r = Val()
            r.kind, r.w, r.uid = "ge", v.w, v.uid
            r.v = (b, v.v[1], v.v[2])
            return r
        return v

    def _resolve(self):
        def fixv(v):
            while v.kind == "i" and isinstance(v.v, _Late):
                t = v.v.imap.get(v.v.ins)
                if t is None:
                    v.kind, v.v = "undef", None
                    return
                v.v = t
            if v.kind == "ge":
                fixv(v.v[0])
        for b in self.F.blocks:
            for I in b.ins:
                for v in ([x for x, _ in I.ops if x is not None] if I.op == "phi" else I.ops):
                    if v is not None:
                        fixv(v)
                if I.op == "gep":
                    for v, _ in I.x[1]:
                        fixv(v)
                if I.op == "call" and I.name is not None:
                    fixv(I.name)


class _Late:
    __slots__ = ("imap", "ins")

    def __init__(self, imap, ins):
        self.imap, self.ins = imap, ins


class _Actual:
    def __init__(self, ops, imap, outer):
        self.ops, self.imap, self.outer = ops, imap, outer

    def get(self, k, inl):
        return inl.tr(self.ops[k], self.imap, self.outer)
