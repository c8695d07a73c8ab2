"""Effect analysis over the IR: who loads, stores and retains the library's mutable globals and statics; call graph."""
from common import *

ALLOCS = {"malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "memalign", "_mm_malloc", "_mm_free", "strdup", "strndup"}
RANDOM = {"rand", "random", "drand48", "lrand48", "erand48", "rand_r", "arc4random", "getrandom", "srand", "srandom", "srand48"}
DLS = {"dlopen", "dlsym", "dlclose"}
CASTS = ("bitcast", "ptrtoint", "inttoptr", "addrspacecast")

def insts(f):
    for b in f.blocks:
        for i in b.insts: yield i
def globs(v, acc=None):
    """globals named in a constant operand"""
    acc = set() if acc is None else acc
    if v is None: return acc
    if v.kind == "global": acc.add(v.name)
    elif v.ops and v.kind in ("cexpr", "vec", "agg"):
        for o in v.ops: globs(o, acc)
    return acc
def fnrefs(v, acc):
    if v is None: return
    if v.kind == "func": acc.add(v.name)
    elif v.ops and v.kind in ("cexpr", "vec", "agg"):
        for o in v.ops: fnrefs(o, acc)

class CallGraph:
    """direct calls, plus functions whose address is taken in the body (callbacks, registries, parallel regions)"""
    def __init__(self, mod):
        self.mod = mod
        self.calls, self.refs = {}, {}
        for f in mod.funcs.values():
            c, r = set(), set()
            for i in insts(f):
                if i.op == "call" and i.callee is not None and i.callee.kind == "func":
                    c.add(i.callee.name)
                for o in (i.ops or []): fnrefs(o, r)
                if i.op == "phi":
                    for a, _ in i.inc: fnrefs(a, r)
                for o in (i.ops or []):
                    for g in globs(o):
                        gl = mod.globals.get(g)
                        if gl is not None and gl.init is not None: fnrefs(gl.init, r)
            self.calls[f.name], self.refs[f.name] = c, r
    def reach(self, roots, refs=True):
        seen, w = set(), list(roots)
        while w:
            n = w.pop()
            if n in seen: continue
            seen.add(n)
            w += self.calls.get(n, ())
            if refs: w += self.refs.get(n, ())
        return seen

class GlobalUse:
    """direct loads, stores and escapes of the address of every global in one module"""
    def __init__(self, mod):
        self.mod = mod
        self.loads, self.stores, self.escapes, self.passed = {}, {}, {}, {}
        for f in mod.funcs.values():
            if f.decl: continue
            addr = {}
            ch = True
            ins = list(insts(f))
            def base(v):
                if v.kind in ("global", "cexpr"): return globs(v)
                if v.kind in ("inst",): return addr.get(v, set())
                return set()
            loc, cell = {}, {}          # values derived from local variables; addresses kept in local variables
            def local(v):
                if v.kind != "inst": return set()
                return loc.get(v, set()) | ({v} if v.inst.op == "alloca" else set())
            for _ in range(4):
                for i in ins:
                    if i.op in ("getelementptr",) + CASTS or i.op in ("select", "phi"):
                        s = set()
                        for o in (i.ops[:1] if i.op == "getelementptr" else i.ops[1:] if i.op == "select" else [a for a, _b in i.inc] if i.op == "phi" else i.ops): s |= local(o)
                        if s: loc[self.v(i)] = loc.get(self.v(i), set()) | s
                    elif i.op == "store" and base(i.ops[0]):
                        for a in local(i.ops[1]): cell[a] = cell.get(a, set()) | base(i.ops[0])
                    elif i.op == "load" and i.ty.k == "ptr":
                        s = set()
                        for a in local(i.ops[0]): s |= cell.get(a, set())
                        if s: addr[self.v(i)] = addr.get(self.v(i), set()) | s
                    if i.op in ("getelementptr",) + CASTS or i.op in ("select",):
                        s = set()
                        for o in (i.ops[:1] if i.op == "getelementptr" else i.ops[1:] if i.op == "select" else i.ops): s |= base(o)
                        if s: addr[self.v(i)] = addr.get(self.v(i), set()) | s
                    elif i.op == "phi":
                        s = set()
                        for a, _b in i.inc: s |= base(a)
                        if s: addr[self.v(i)] = addr.get(self.v(i), set()) | s
            for i in ins:
                if i.op == "load":
                    for g in base(i.ops[0]): self.loads.setdefault(g, []).append((f, i))
                elif i.op == "store":
                    for g in base(i.ops[1]): self.stores.setdefault(g, []).append((f, i, i.ops[0]))
                    if not local(i.ops[1]):
                        for g in base(i.ops[0]): self.escapes.setdefault(g, []).append((f, i))
                elif i.op in ("cmpxchg", "atomicrmw"):
                    for g in base(i.ops[0]):
                        self.stores.setdefault(g, []).append((f, i, None)); self.loads.setdefault(g, []).append((f, i))
                elif i.op == "call":
                    nm = i.callee.name if i.callee.kind == "func" else ""
                    if nm.startswith("llvm.dbg") or nm.startswith("llvm.lifetime"): continue
                    for k, a in enumerate(i.args):
                        if a.kind == "meta": continue
                        for g in base(a):
                            if nm.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                                if k == 0: self.stores.setdefault(g, []).append((f, i, i.args[1]))
                                elif k == 1: self.loads.setdefault(g, []).append((f, i))
                            else: self.escapes.setdefault(g, []).append((f, i)); self.passed.setdefault(g, []).append((f, i, k))
                        for l in local(a):
                            for g in cell.get(l, ()): self.escapes.setdefault(g, []).append((f, i)); self.passed.setdefault(g, []).append((f, i, None))
                elif i.op == "ret":
                    for o in i.ops or []:
                        for g in base(o): self.escapes.setdefault(g, []).append((f, i))
    def v(self, i):
        for_v = _V.get(i.id)
        return for_v
_V = {}
def index(mod):
    """instruction -> its value object"""
    if getattr(mod, "path", None) in _DONE: return
    _DONE.add(mod.path)
    for v in list(mod._vals.values()):
        if v.kind == "inst" and v.inst is not None: _V[(v.inst.id)] = v
_DONE = set()

def mutable(mod):
    """defined, non-constant globals that some function writes or leaks"""
    index(mod)
    u = GlobalUse(mod)
    out = []
    for n, g in mod.globals.items():
        if g.const or g.init is None or n.startswith(("llvm.", "verif_", ".")): continue
        out.append(n)
    return out, u

def dominators(f):
    idx = {b: k for k, b in enumerate(f.blocks)}
    full = set(f.blocks)
    dom = {b: set(full) for b in f.blocks}
    dom[f.blocks[0]] = {f.blocks[0]}
    ch = True
    while ch:
        ch = False
        for b in f.blocks[1:]:
            ps = [dom[p] for p in b.preds]
            n = (set.intersection(*ps) if ps else set()) | {b}
            if n != dom[b]: dom[b] = n; ch = True
    return dom

def slice_sources(v, seen=None):
    """what a value is computed from: 'const', 'arg', 'load:<global>', 'mem', 'call:<name>'"""
    seen = set() if seen is None else seen
    if v is None: return {"mem"}
    if v.kind == "arg": return {"arg"}
    if v.kind != "inst":
        return {"const"}
    if v in seen: return set()
    seen.add(v)
    i = v.inst
    if i.op == "load":
        gs = globs(i.ops[0])
        if gs and i.ops[0].kind in ("global", "cexpr"): return {"load:" + g for g in gs}
        return {"mem"}
    if i.op == "alloca": return {"local"}
    out = set()
    if i.op == "call":
        nm = i.callee.name if i.callee.kind == "func" else "?"
        for a in i.args:
            if a.kind != "meta": out |= slice_sources(a, seen)
        if not nm.startswith("llvm.") and nm not in PURE_MATH: out.add("call:" + nm)
        return out
    if i.op == "phi":
        for a, _ in i.inc: out |= slice_sources(a, seen)
        return out
    for o in i.ops or []: out |= slice_sources(o, seen)
    return out
PURE_MATH = {n + s for n in ("sqrt", "exp", "log", "pow", "tanh", "fabs", "exp2", "log2", "fmax", "fmin", "floor", "ceil", "round") for s in ("", "f")}

def users(f):
    u = {}
    for i in insts(f):
        for o in (i.ops or []):
            if o.kind == "inst": u.setdefault(o, []).append(i)
        if i.op == "phi":
            for a, _ in i.inc:
                if a.kind == "inst": u.setdefault(a, []).append(i)
        if i.op == "call" and i.callee.kind == "inst": u.setdefault(i.callee, []).append(i)
    return u
def flows_out(f, inst, g):
    """sinks a loaded value reaches, other than stores back into the same global"""
    u = users(f)
    seen, w, out = set(), [_V.get(inst.id)], []
    while w:
        v = w.pop()
        if v is None or v in seen: continue
        seen.add(v)
        for i in u.get(v, []):
            if i.op == "store":
                if i.ops[0] is v and g in globs(i.ops[1]): continue
                out.append(("stored", i))
            elif i.op == "ret": out.append(("returned", i))
            elif i.op == "br" or i.op == "switch": out.append(("decides a branch", i))
            elif i.op == "call":
                nm = i.callee.name if i.callee.kind == "func" else "?"
                if nm.startswith("llvm.dbg"): continue
                if nm.startswith("llvm.") or nm in PURE_MATH: w.append(_V.get(i.id))
                else: out.append(("passed to " + nm, i))
            elif i.op == "load": out.append(("dereferenced", i))
            else: w.append(_V.get(i.id))
    return out

def exposed_loads(mod, u, g):
    """loads of g that no store of the same function to g precedes on every path"""
    out = []
    for f, i in u.loads.get(g, []):
        dom = dominators(f)
        cov = False
        for f2, s, _ in u.stores.get(g, []):
            if f2 is not f or s.op not in ("store", "call"): continue
            if s.block is i.block:
                if i.block.insts.index(s) < i.block.insts.index(i): cov = True
            elif s.block in dom[i.block]: cov = True
        if not cov: out.append((f, i))
    return out

def generator(mod, cg, n):
    """draws random numbers and writes nothing but its own state"""
    f = mod.funcs.get(n)
    if f is None or not (cg.reach([n], refs=False) & RANDOM): return False
    if any(a.ty.k == "ptr" for a in f.args): return False
    for i in insts(f):
        if i.op == "store" and not globs(i.ops[1]) and not (i.ops[1].kind == "inst" and i.ops[1].inst.op in ("alloca", "getelementptr")): return False
    return True
def global_rule(mod, cg=None):
    """(name, verdict, why, where) for every mutable global: does it carry one instance's data to another's behaviour?"""
    cg = cg or CallGraph(mod)
    muts, u = mutable(mod)
    res = []
    for g in muts:
        gl = mod.globals[g]
        st, ld, es = u.stores.get(g, []), u.loads.get(g, []), u.escapes.get(g, [])
        if not st and not es: res.append((g, "ok", "never written", None)); continue
        acc = {f.name for f, *_ in st} | {f.name for f, *_ in ld} | {f.name for f, *_ in es}
        wr = {f.name for f, *_ in st}
        w = lambda f, i: "%s:%s (%s)" % (rel(i.file) if i.file else "?", i.line, f.name)
        if all(cg.reach([n], refs=False) & DLS for n in wr) and wr: res.append((g, "ok", "registry of loaded libraries: written only by functions that open or close them", None)); continue
        if all(generator(mod, cg, n) for n in acc): res.append((g, "ok", "state of the process-wide random generator", None)); continue
        scal = gl.ty.k in ("int", "float", "double", "ptr")
        exp = exposed_loads(mod, u, g) if scal else ld
        dep = []
        for f, i, v in st:
            src = slice_sources(v)
            if {s for s in src if s in ("arg", "mem") or (s.startswith("call:"))}: dep.append((f, i, src))
        selfd = [(f, i) for f, i, v in st if ("load:" + g) in slice_sources(v)]
        if not exp and not es: res.append((g, "ok", "only used as scratch: every load follows a store of the same call", None)); continue
        outs = [(f, i, k, s) for f, i in (ld if selfd else exp) for k, s in flows_out(f, i, g)]
        if not dep and not selfd and not es: res.append((g, "ok", "holds constants only (%d stores)" % len(st), None)); continue
        if not outs and not es: res.append((g, "ok", "its value only flows back into itself", None)); continue
        if any(cg.calls[n] & ALLOCS for n in wr) or (gl.ty.k == "ptr" and not dep):
            res.append((g, "undecided", "cached storage: %d stores, %d loads" % (len(st), len(ld)), None)); continue
        if dep and (outs or es):
            f, i, src = dep[0]
            if outs: f2, i2, k, s = outs[0]; how = "a later call's load at %s %s it" % (w(f2, i2), {"returned": "returns", "dereferenced": "dereferences", "stored": "stores", "decides a branch": "branches on"}.get(k, k))
            else: f2, i2 = es[0]; how = "its address is handed out at %s" % w(f2, i2)
            res.append((g, "bad", "holds data of whichever instance wrote it last (%s) and %s" % (w(f, i), how), w(f, i))); continue
        if selfd and outs:
            f, i = selfd[0]; f2, i2, k, s = outs[0]
            if k == "stored" or k == "returned" or k.startswith("passed") or (k == "decides a branch"):
                res.append((g, "bad", "counts the calls of all instances together (%s) and the count is used at %s (%s)" % (w(f, i), w(f2, s), k), w(f, i))); continue
        res.append((g, "undecided", "%d stores, %d loads, %d uses of its address" % (len(st), len(ld), len(es)), None))
    return res
