"""Load LLVM bitcode/IR through the LLVM C API (ctypes) into plain Python objects.

Nothing is executed: this is only a reader for the compiler's intermediate representation."""
import ctypes as C
import glob

def _find():
    for p in ("libLLVM-18.so.1", "/usr/lib/llvm-18/lib/libLLVM-18.so.1", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so.1",
              "libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM-18.so") + tuple(glob.glob("/usr/lib/llvm-18/lib/libLLVM*.so*")):
        try:
            return C.CDLL(p)
        except OSError:
            continue
    raise RuntimeError("libLLVM-18 not found")

L = _find()
vp, u, ull, sz, i = C.c_void_p, C.c_uint, C.c_ulonglong, C.c_size_t, C.c_int

def _d(name, res, *args):
    f = getattr(L, "LLVM" + name)
    f.restype = res
    f.argtypes = list(args)
    globals()["_" + name] = f

for spec in [
    ("ContextCreate", vp), ("CreateMemoryBufferWithContentsOfFile", i, C.c_char_p, C.POINTER(vp), C.POINTER(C.c_char_p)),
    ("ParseIRInContext", i, vp, vp, C.POINTER(vp), C.POINTER(C.c_char_p)),
    ("GetFirstFunction", vp, vp), ("GetNextFunction", vp, vp), ("IsDeclaration", i, vp),
    ("GetFirstGlobal", vp, vp), ("GetNextGlobal", vp, vp), ("GetInitializer", vp, vp), ("IsGlobalConstant", i, vp),
    ("GetLinkage", i, vp), ("GetValueName2", vp, vp, C.POINTER(sz)),
    ("CountParams", u, vp), ("GetParam", vp, vp, u), ("GetFirstBasicBlock", vp, vp), ("GetNextBasicBlock", vp, vp),
    ("GetBasicBlockName", C.c_char_p, vp), ("GetFirstInstruction", vp, vp), ("GetNextInstruction", vp, vp),
    ("GetInstructionOpcode", i, vp), ("GetNumOperands", i, vp), ("GetOperand", vp, vp, u), ("TypeOf", vp, vp),
    ("GetTypeKind", i, vp), ("GetIntTypeWidth", u, vp), ("GetElementType", vp, vp), ("GetVectorSize", u, vp),
    ("GetArrayLength2", ull, vp), ("CountStructElementTypes", u, vp), ("StructGetTypeAtIndex", vp, vp, u),
    ("GetStructName", C.c_char_p, vp), ("GetValueKind", i, vp), ("ConstIntGetSExtValue", C.c_longlong, vp),
    ("ConstIntGetZExtValue", ull, vp), ("ConstRealGetDouble", C.c_double, vp, C.POINTER(i)),
    ("GetAggregateElement", vp, vp, u), ("IsConstantString", i, vp), ("GetAsString", vp, vp, C.POINTER(sz)),
    ("GetConstOpcode", i, vp), ("GetICmpPredicate", i, vp), ("GetFCmpPredicate", i, vp), ("GetAlignment", u, vp),
    ("GetGEPSourceElementType", vp, vp), ("GetAllocatedType", vp, vp), ("GetNumMaskElements", u, vp),
    ("GetMaskValue", i, vp, u), ("GetNumIndices", u, vp), ("GetIndices", C.POINTER(u), vp),
    ("CountIncoming", u, vp), ("GetIncomingValue", vp, vp, u), ("GetIncomingBlock", vp, vp, u),
    ("GetCalledValue", vp, vp), ("GetNumArgOperands", u, vp), ("GetDebugLocLine", u, vp),
    ("GetDebugLocFilename", vp, vp, C.POINTER(u)), ("GetModuleDataLayout", vp, vp),
    ("ABISizeOfType", ull, vp, vp), ("OffsetOfElement", ull, vp, vp, u), ("ABIAlignmentOfType", u, vp, vp),
    ("GlobalGetValueType", vp, vp), ("GetReturnType", vp, vp), ("IsFunctionVarArg", i, vp),
    ("BasicBlockAsValue", vp, vp), ("ValueAsBasicBlock", vp, vp), ("GetBasicBlockTerminator", vp, vp),
    ("GetCalledFunctionType", vp, vp), ("PrintValueToString", vp, vp), ("GetMetadataKindID" if False else "GetMDKindIDInContext", u, vp, C.c_char_p, u),
    ("GetMetadata", vp, vp, u), ("IsConditional", i, vp), ("GetCondition", vp, vp),
    ("IsUnnamedAddr", i, vp), ("IsThreadLocal", i, vp), ("CountParamTypes", u, vp),
]:
    try:
        _d(*spec)
    except AttributeError:
        if spec[0] not in ("IsUnnamedAddr",):
            raise

OPC = {1:"ret",2:"br",3:"switch",4:"indirectbr",5:"invoke",7:"unreachable",67:"callbr",66:"fneg",
 8:"add",9:"fadd",10:"sub",11:"fsub",12:"mul",13:"fmul",14:"udiv",15:"sdiv",16:"fdiv",17:"urem",18:"srem",19:"frem",
 20:"shl",21:"lshr",22:"ashr",23:"and",24:"or",25:"xor",26:"alloca",27:"load",28:"store",29:"getelementptr",
 30:"trunc",31:"zext",32:"sext",33:"fptoui",34:"fptosi",35:"uitofp",36:"sitofp",37:"fptrunc",38:"fpext",39:"ptrtoint",
 40:"inttoptr",41:"bitcast",60:"addrspacecast",42:"icmp",43:"fcmp",44:"phi",45:"call",46:"select",47:"userop1",48:"userop2",
 49:"va_arg",50:"extractelement",51:"insertelement",52:"shufflevector",53:"extractvalue",54:"insertvalue",68:"freeze",
 55:"fence",56:"cmpxchg",57:"atomicrmw"}
IPRED = {32:"eq",33:"ne",34:"ugt",35:"uge",36:"ult",37:"ule",38:"sgt",39:"sge",40:"slt",41:"sle"}
FPRED = {0:"false",1:"oeq",2:"ogt",3:"oge",4:"olt",5:"ole",6:"one",7:"ord",8:"uno",9:"ueq",10:"ugt",11:"uge",12:"ult",13:"ule",14:"une",15:"true"}
# LLVMTypeKind
TK = {0:"void",1:"half",2:"float",3:"double",4:"x86_fp80",5:"fp128",7:"label",8:"int",9:"func",10:"struct",11:"array",12:"ptr",13:"vector",14:"metadata"}

class Ty:
    __slots__ = ("k", "bits", "elt", "n", "fields", "name", "size", "offs", "align")
    def __repr__(self):
        if self.k == "int": return "i%d" % self.bits
        if self.k in ("vector", "array"): return "%s<%d x %r>" % (self.k[0], self.n, self.elt)
        if self.k == "struct": return self.name or "{%s}" % ",".join(map(repr, self.fields))
        return self.k

class V:
    """IR value. kind: int fp null undef global func arg inst vec agg cexpr str block meta"""
    __slots__ = ("kind", "ty", "v", "ops", "name", "inst")
    def __init__(s, kind, ty, v=None, ops=None, name=None):
        s.kind, s.ty, s.v, s.ops, s.name, s.inst = kind, ty, v, ops, name, None
    def __repr__(s):
        return "%s:%s" % (s.kind, s.name if s.name is not None else s.v)

class Inst:
    __slots__ = ("op", "ty", "ops", "name", "pred", "align", "gepty", "aty", "mask", "idx", "inc", "callee", "args", "file", "line", "block", "succ", "cases", "id", "fty")
    def __repr__(s): return "<%s %s @%s:%s>" % (s.op, s.name or "", s.file, s.line)

class Block:
    __slots__ = ("name", "insts", "succ", "preds", "func", "idx")
    def __repr__(s): return "<bb %s>" % s.name

class Func:
    __slots__ = ("name", "args", "blocks", "decl", "ret", "vararg", "linkage", "mod", "_loops", "_ptr")
    def __repr__(s): return "<fn %s>" % s.name

class Glob:
    __slots__ = ("name", "ty", "const", "init", "linkage", "users", "tls")
    def __repr__(s): return "<glob %s>" % s.name

class Module:
    def __init__(self, path):
        self.path = path
        self.ctx = _ContextCreate()
        mb = vp(); err = C.c_char_p()
        if _CreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(mb), C.byref(err)):
            raise RuntimeError("read %s: %s" % (path, err.value))
        m = vp()
        if _ParseIRInContext(self.ctx, mb, C.byref(m), C.byref(err)):
            raise RuntimeError("parse %s: %s" % (path, err.value))
        self.m = m
        self.dl = _GetModuleDataLayout(m)
        self._ty = {}
        self._vals = {}
        self.funcs, self.globals = {}, {}
        self._load()

    # ---- types
    def ty(self, t):
        if t in self._ty: return self._ty[t]
        o = Ty(); self._ty[t] = o
        o.k = TK.get(_GetTypeKind(t), "other"); o.bits = o.n = 0; o.elt = None; o.fields = None; o.name = None; o.size = 0; o.offs = None; o.align = 1
        k = o.k
        if k == "int": o.bits = _GetIntTypeWidth(t)
        elif k == "vector": o.n = _GetVectorSize(t); o.elt = self.ty(_GetElementType(t))
        elif k == "array": o.n = _GetArrayLength2(t); o.elt = self.ty(_GetElementType(t))
        elif k == "struct":
            nm = _GetStructName(t); o.name = nm.decode() if nm else None
            cnt = _CountStructElementTypes(t)
            o.fields = [self.ty(_StructGetTypeAtIndex(t, j)) for j in range(cnt)]
            if all(f.k not in ("other",) for f in o.fields):
                try: o.offs = [_OffsetOfElement(self.dl, t, j) for j in range(cnt)]
                except Exception: o.offs = None
        if k not in ("void", "label", "func", "metadata", "other"):
            if not (k == "struct" and not o.fields):
                o.size = _ABISizeOfType(self.dl, t); o.align = _ABIAlignmentOfType(self.dl, t)
        return o

    def _name(self, v):
        n = sz(); p = _GetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode() if n.value else ""

    # ---- values
    def val(self, v):
        r = self._vals.get(v)
        if r is not None: return r
        r = self._mkval(v)
        self._vals[v] = r
        return r

    def _mkval(self, v):
        kind = _GetValueKind(v)
        # LLVMValueKind: Argument0 BB1 MemUse.. Function5 Alias6 IFunc7 GlobalVar8 BlockAddress9 ConstExpr10 ConstArray11 ConstStruct12 ConstVector13 Undef14 AggZero15 DataArray16 DataVector17 Int18 FP19 PtrNull20 TokenNone21 MetadataAsValue22 InlineAsm23 Inst24 Poison25
        if kind == 5: return V("func", None, name=self._name(v))
        if kind == 8:
            return V("global", None, name=self._name(v))
        if kind == 1: return V("block", None, v=v)
        if kind == 22: return V("meta", None)
        t = self.ty(_TypeOf(v))
        if kind == 0: return V("arg", t, name=self._name(v))
        if kind == 24: return V("inst", t, v=v, name=self._name(v))
        if kind == 18: return V("int", t, v=_ConstIntGetSExtValue(v) if t.bits <= 64 else 0)
        if kind == 19:
            lo = i(); return V("fp", t, v=_ConstRealGetDouble(v, C.byref(lo)))
        if kind == 20: return V("null", t)
        if kind in (14, 25): return V("undef", t)
        if kind in (15,):
            return V("zero", t)
        if kind in (16, 17, 11, 12, 13):
            if kind == 16 and _IsConstantString(v):
                n = sz(); p = _GetAsString(v, C.byref(n))
                return V("str", t, v=C.string_at(p, n.value))
            cnt = t.n if t.k in ("vector", "array") else len(t.fields)
            if kind == 16 and t.elt.k == "int" and t.elt.bits == 8:
                n = sz(); p = _GetAsString(v, C.byref(n))
                return V("str", t, v=C.string_at(p, n.value))
            return V("vec" if t.k == "vector" else "agg", t, ops=[self.val(_GetAggregateElement(v, j)) for j in range(cnt)])
        if kind == 10:
            op = OPC.get(_GetConstOpcode(v), "?")
            r = V("cexpr", t, v=op, ops=[self.val(_GetOperand(v, j)) for j in range(_GetNumOperands(v))])
            if op == "getelementptr": r.name = self.ty(_GetGEPSourceElementType(v))
            return r
        if kind == 23: return V("asm", None)
        return V("other", t)

    def _load(self):
        g = _GetFirstGlobal(self.m)
        while g:
            o = Glob(); o.name = self._name(g); o.ty = self.ty(_GlobalGetValueType(g)); o.const = bool(_IsGlobalConstant(g)); o.tls = bool(_IsThreadLocal(g))
            ini = _GetInitializer(g); o.linkage = _GetLinkage(g); o.users = []
            o.init = ini
            self.globals[o.name] = o
            g = _GetNextGlobal(g)
        f = _GetFirstFunction(self.m)
        fl = []
        while f:
            o = Func(); o.name = self._name(f); o.decl = bool(_IsDeclaration(f)); o.mod = self; o.linkage = _GetLinkage(f)
            fty = _GlobalGetValueType(f)
            o.ret = self.ty(_GetReturnType(fty)); o.vararg = bool(_IsFunctionVarArg(fty)); o._loops = None; o._ptr = f
            o.args = [self.val(_GetParam(f, j)) for j in range(_CountParams(f))]
            o.blocks = []
            self.funcs[o.name] = o
            fl.append((f, o))
            f = _GetNextFunction(f)
        for gl in self.globals.values():
            gl.init = self.val(gl.init) if gl.init else None
        self._iid = 0
        for f, o in fl:
            if not o.decl: self._body(f, o)

    def _body(self, f, fo):
        bbs = {}
        b = _GetFirstBasicBlock(f)
        while b:
            bo = Block(); bo.name = (_GetBasicBlockName(b) or b"").decode() or "bb%d" % len(bbs)
            bo.insts, bo.succ, bo.preds, bo.func, bo.idx = [], [], [], fo, len(bbs)
            bbs[b] = bo; bbs[_BasicBlockAsValue(b)] = bo
            fo.blocks.append(bo)
            b = _GetNextBasicBlock(b)
        b = _GetFirstBasicBlock(f)
        lastloc = (None, 0)
        while b:
            bo = bbs[b]
            ip = _GetFirstInstruction(b)
            while ip:
                x = Inst(); x.op = OPC.get(_GetInstructionOpcode(ip), "?"); x.ty = self.ty(_TypeOf(ip)); x.name = self._name(ip)
                x.block = bo; x.pred = x.align = x.gepty = x.aty = x.mask = x.idx = x.inc = x.callee = x.args = x.succ = x.cases = x.fty = None
                self._iid += 1; x.id = self._iid
                ln = _GetDebugLocLine(ip)
                if ln:
                    n = u(); p = _GetDebugLocFilename(ip, C.byref(n))
                    lastloc = (C.string_at(p, n.value).decode() if p else None, ln)
                x.file, x.line = lastloc if ln else (lastloc[0], lastloc[1])
                v = self.val(ip); v.inst = x
                nops = _GetNumOperands(ip)
                if x.op == "phi":
                    x.ops = []
                    x.inc = [(_GetIncomingValue(ip, j), bbs[_GetIncomingBlock(ip, j)]) for j in range(_CountIncoming(ip))]
                    x.inc = [(self.val(a), c) for a, c in x.inc]
                elif x.op == "br":
                    if _IsConditional(ip):
                        x.ops = [self.val(_GetCondition(ip))]
                        # operands order in LLVM: cond, false, true
                        x.succ = [bbs[_GetOperand(ip, 2)], bbs[_GetOperand(ip, 1)]]
                    else:
                        x.ops = []; x.succ = [bbs[_GetOperand(ip, 0)]]
                elif x.op == "switch":
                    x.ops = [self.val(_GetOperand(ip, 0))]
                    x.succ = [bbs[_GetOperand(ip, 1)]]
                    x.cases = []
                    for j in range(2, nops, 2):
                        x.cases.append((_ConstIntGetSExtValue(_GetOperand(ip, j)), bbs[_GetOperand(ip, j + 1)]))
                elif x.op == "call":
                    x.callee = self.val(_GetCalledValue(ip))
                    ft = _GetCalledFunctionType(ip)
                    x.fty = _CountParamTypes(ft) if _IsFunctionVarArg(ft) else None      # number of named parameters of a variadic call
                    na = _GetNumArgOperands(ip)
                    x.args = [self.val(_GetOperand(ip, j)) for j in range(na)]
                    x.ops = x.args
                else:
                    x.ops = [self.val(_GetOperand(ip, j)) for j in range(nops)]
                if x.op == "icmp": x.pred = IPRED[_GetICmpPredicate(ip)]
                elif x.op == "fcmp": x.pred = FPRED[_GetFCmpPredicate(ip)]
                elif x.op in ("load", "store"): x.align = _GetAlignment(ip)
                elif x.op == "alloca":
                    x.align = _GetAlignment(ip); x.aty = self.ty(_GetAllocatedType(ip))
                elif x.op == "getelementptr": x.gepty = self.ty(_GetGEPSourceElementType(ip))
                elif x.op == "shufflevector": x.mask = [_GetMaskValue(ip, j) for j in range(_GetNumMaskElements(ip))]
                elif x.op in ("extractvalue", "insertvalue"):
                    n = _GetNumIndices(ip); a = _GetIndices(ip); x.idx = [a[j] for j in range(n)]
                bo.insts.append(x)
                ip = _GetNextInstruction(ip)
            t = bo.insts[-1]
            if t.op == "br": bo.succ = list(t.succ)
            elif t.op == "switch": bo.succ = [t.succ[0]] + [c for _, c in t.cases]
            b = _GetNextBasicBlock(b)
        for bo in fo.blocks:
            for s in bo.succ:
                if bo not in s.preds: s.preds.append(bo)

    def gstring(self, name):
        """NUL-terminated constant string held by a global, or None"""
        g = self.globals.get(name)
        if g is None or g.init is None: return None
        if g.init.kind == "str":
            return g.init.v.split(b"\0")[0].decode("latin-1")
        if g.init.kind == "zero": return ""
        return None
