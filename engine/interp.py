"""Abstract interpretation of LLVM IR: every function is summarised once, loops are collapsed to closed forms
(inductions, sums, reductions, strided memory segments); values at control-flow joins become gated values.
No path is enumerated and nothing is executed."""
import os, struct as _struct
from terms import *
from linear import Ctx, add_atom_fact, _flatand
from memory import *
import memory as M

UNDEF = mk("undef")

class Unsupported(Exception): pass

# --------------------------------------------------------------------------- CFG helpers
class LoopInfo:
    __slots__ = ("header", "blocks", "latches", "parent", "children", "depth")
def analyse_cfg(f):
    if f._loops is not None: return f._loops
    blocks = f.blocks
    # reverse post order
    seen, order = set(), []
    st = [(blocks[0], iter(blocks[0].succ))]; seen.add(blocks[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(s.succ))); break
        else:
            order.append(b); st.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    def inter(a, b):
        while a is not b:
            while num[a] > num[b]: a = idom[a]
            while num[b] > num[a]: b = idom[b]
        return a
    while ch:
        ch = False
        for b in order[1:]:
            n = None
            for p in b.preds:
                if p in idom: n = p if n is None else inter(n, p)
            if idom.get(b) is not n: idom[b] = n; ch = True
    def dom(a, b):
        while True:
            if a is b: return True
            if b is order[0]: return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in b.succ:
            if dom(s, b):
                l = loops.get(s)
                if l is None:
                    l = LoopInfo(); l.header = s; l.blocks = {s}; l.latches = []; l.parent = None; l.children = []; loops[s] = l
                l.latches.append(b)
                stk = [b]
                while stk:
                    x = stk.pop()
                    if x in l.blocks: continue
                    l.blocks.add(x); stk += [p for p in x.preds if p in num]
    ls = sorted(loops.values(), key=lambda l: len(l.blocks))
    for i, l in enumerate(ls):
        for o in ls[i + 1:]:
            if l.header in o.blocks:
                l.parent = o; o.children.append(l); break
    inner = {}
    for l in reversed(ls):
        for b in l.blocks: inner[b] = l
    f._loops = (order, num, idom, loops, inner)
    return f._loops

# --------------------------------------------------------------------------- state
class St:
    """memory: object base -> chain, over a root that supplies the content of untouched objects"""
    __slots__ = ("d", "root")
    def __init__(self, d, root): self.d, self.root = d, root
    def copy(self): return St(dict(self.d), self.root)
    def get(self, base):
        c = self.d.get(base)
        return c if c is not None else self.root(base)

class Event:
    __slots__ = ("name", "args", "cond", "loops", "site", "inst", "mem", "ret", "ctx", "fn")
    def __repr__(self): return "%s(%s)" % (self.name, ", ".join(show(a) for a in self.args))

class Access:
    __slots__ = ("kind", "base", "off", "size", "align", "ctx", "inst", "fn", "site", "loops", "st")

class Env:
    """SSA environment of one function activation"""
    __slots__ = ("f", "v", "site", "nalloca")

FCALLS = {"expf": "exp", "exp": "exp", "logf": "log", "log": "log", "tanhf": "tanh", "tanh": "tanh", "sqrtf": "sqrt", "sqrt": "sqrt",
          "fabsf": "fabs", "fabs": "fabs", "roundf": "round", "round": "round", "floorf": "floor", "floor": "floor", "powf": "pow", "pow": "pow",
          "fmaxf": "fmax", "fmax": "fmax", "fminf": "fmin", "fmin": "fmin", "log1pf": "log1p", "expm1f": "expm1", "rintf": "rint", "ceilf": "ceil", "truncf": "trunc",
          "coshf": "cosh", "sinhf": "sinh", "log1p": "log1p", "expm1": "expm1", "nearbyintf": "rint", "lroundf": "round", "copysignf": "copysign",
          "log2f": "log2", "exp2f": "exp2", "cosh": "cosh", "hypotf": "hypot", "cbrtf": "cbrt", "fmodf": "fmod"}
INTRIN1 = {"llvm.sqrt": "sqrt", "llvm.fabs": "fabs", "llvm.round": "round", "llvm.floor": "floor", "llvm.exp": "exp", "llvm.log": "log", "llvm.ceil": "ceil",
           "llvm.rint": "rint", "llvm.nearbyint": "rint", "llvm.trunc": "trunc", "llvm.exp2": "exp2", "llvm.log2": "log2"}
INTRIN2 = {"llvm.maxnum": "fmax", "llvm.minnum": "fmin", "llvm.pow": "pow", "llvm.copysign": "copysign"}
# external functions without any effect on memory the analysis reasons about
PURE_EXT = {"fprintf", "printf", "perror", "puts", "putchar", "fputs", "fputc", "fflush", "rand", "srand", "time", "strlen", "strcmp", "strncmp", "free",
            "fclose", "isatty", "ioctl", "getcols", "atexit", "access", "localtime", "fileno", "fwrite", "abs", "vprintf", "vfprintf", "__ctype_b_loc", "strtol",
            "omp_get_max_threads", "omp_get_num_threads", "omp_get_thread_num", "strstr", "strchr", "strrchr", "srandom", "random", "drand48", "getenv"}
ALLOC = {"malloc", "calloc", "_mm_malloc", "aligned_alloc", "realloc", "memalign", "strdup"}

def vmap(fn, *vs):
    """apply fn lane-wise if the operands are vectors"""
    if any(isinstance(v, Vec) for v in vs):
        n = len(next(v for v in vs if isinstance(v, Vec)).l)
        return mkvec(fn(*[v.l[i] if isinstance(v, Vec) else v for v in vs]) for i in range(n))
    return fn(*vs)

def cat32(lo, hi):
    a, b = lo.const(), hi.const()
    if a is not None and b is not None: return C((a & 0xffffffff) + b * (1 << 32))
    return A(mk("cat32", lo, hi))
def _cat(p):
    return len(p.m) == 1 and p.m[0][1] == 1 and len(p.m[0][0]) == 1 and p.m[0][0][0].op == "cat32"
def split32(p):
    if _cat(p): return p.m[0][0][0].a
    c = p.const()
    if c is None: return None
    lo = c & 0xffffffff
    if lo >> 31: lo -= 1 << 32
    return C(lo), C((c >> 32))

class Interp:
    def __init__(self, mod, opaque=None, hooks=None, assume_alloc=True, max_depth=12, resolve_icall=None):
        self.mod = mod
        self.hooks = hooks or {}          # function name -> handler(interp, name, args, st, ctx, event) -> value
        self.assume_alloc = assume_alloc
        self.resolve_icall = resolve_icall
        self.events, self.accesses, self.asserts = [], [], []
        self.loopstack = []
        self.final = [True]
        self.buf = []                     # pending (commit function) of non-final loop passes
        self.objinfo = {}
        self.on_access = None
        self.loopinfo = []
        self.funcs_seen = set()
        self.unsupported = []
        self.callstack = []
        self._gconst()
        self.max_depth = max_depth
        self.nobj = 0
        self.unroll = 0                   # loops whose exit is decided for every iteration are unrolled up to this often
        self.unroll_stack = []
        self.initmem = {}                 # base -> chain given by the client

    # ---- globals: constant arrays whose address is only used for loads
    def _gconst(self):
        m = self.mod
        bad = set()
        def scan(v, ok):
            if v is None: return
            if v.kind == "global" and not ok: bad.add(v.name)
            if v.kind == "cexpr":
                for o in v.ops: scan(o, ok)
            elif v.ops and v.kind in ("vec", "agg"):
                for o in v.ops: scan(o, False)
        for f in m.funcs.values():
            for b in f.blocks:
                for i in b.insts:
                    if i.op == "call":
                        if i.callee is not None: pass
                        ro = i.callee.kind == "func" and (i.callee.name.startswith("llvm.dbg") or i.callee.name in PURE_EXT or (i.callee.name.startswith("llvm.memcpy")))
                        for k, a in enumerate(i.args):
                            scan(a, ro and not (i.callee.name.startswith("llvm.memcpy") and k == 0))
                    elif i.op == "store": scan(i.ops[0], False); scan(i.ops[1], False)
                    elif i.op == "phi":
                        for a, _ in i.inc: scan(a, False)
                    elif i.op in ("load", "getelementptr", "icmp"):
                        for a in i.ops: scan(a, True)
                    else:
                        for a in i.ops or []: scan(a, False)
        self.constglob = {n for n, g in m.globals.items() if g.init is not None and (g.const or (n not in bad and g.linkage in (8, 9)))}
    def const_chain(self, name):
        g = self.mod.globals[name]
        vals = []
        def flat(v):
            if v.kind == "zero":
                t = v.ty
                if t.k == "array":
                    for _ in range(t.n): flat_t(t.elt)
                else: flat_t(t)
            elif v.kind in ("agg", "vec") and v.ty.k in ("array", "vector"):
                for o in v.ops: flat(o)
            elif v.kind == "str":
                for c in v.v: vals.append((C(c if c < 128 else c - 256), "i8"))
            else:
                vals.append((self.cval(v), "ptr" if v.ty is None else tkey(v.ty)))
        def flat_t(t):
            if t.k == "array":
                for _ in range(t.n): flat_t(t.elt)
            else: vals.append((zero(tkey(t)), tkey(t)))
        try: flat(g.init)
        except Exception: return None
        if not vals or len({t for _, t in vals}) != 1 or len(vals) > 4096 or isinstance(vals[0][1], tuple): return None
        tk = vals[0][1]
        return mk("mconst", tuple(v for v, _ in vals), tsize(tk), tk)

    def default_root(self, base):
        c = self.initmem.get(base)
        if c is not None: return c
        if base.op == "global" and base.a[0] in self.constglob:
            c = self.const_chain(base.a[0])
            if c is not None:
                self.initmem[base] = c
                return c
        if base.op in ("obj", "alloca"): return mk("mundef", base)
        return mk("minit", base)

    # ---- constants
    def cval(self, v):
        k = v.kind
        if k == "int":
            if v.ty.bits == 1: return bconst(v.v != 0)
            return C(v.v)
        if k == "fp": return fc(v.v)
        if k == "null": return NULL
        if k == "undef":
            t = v.ty
            if t.k == "vector": return mkvec([self._undef(t.elt)] * t.n)
            return self._undef(t)
        if k == "zero": return zero(tkey(v.ty)) if v.ty.k not in ("struct", "array") else mk("zeroagg")
        if k == "vec": return mkvec(self.cval(o) for o in v.ops)
        if k == "func": return mkptr(mk("func", v.name))
        if k == "global": return mkptr(mk("global", v.name))
        if k == "cexpr":
            if v.v == "getelementptr":
                return self.gep(v.name, [self.cval(o) for o in v.ops])
            if v.v in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast"):
                x = self.cval(v.ops[0])
                return ptrint(x) if v.v == "ptrtoint" else x
        if k in ("agg", "str"): return mk("constagg", v.name or "?")
        raise Unsupported("constant %s" % k)
    def _undef(self, t):
        tk = tkey(t)
        if t.k in ("struct", "array"): return mk("undefagg")
        if tk in ("f32", "f64"): return mk("undeff")
        if tk == "ptr": return mkptr(mk("undefp"))
        if tk == "i1": return mk("bsym", "undef")
        return A(mk("undefi"))
    def val(self, env, v):
        if v.kind in ("inst", "arg"):
            r = env.v.get(v)
            if r is None: raise Unsupported("use of undefined value %s in %s" % (v.name, env.f.name))
            return r
        return self.cval(v)

    def gep(self, ty, ops):
        base = ops[0]
        off = pmul(ops[1], C(ty.size)) if isinstance(ops[1], P) else None
        if off is None: raise Unsupported("vector gep")
        t = ty
        for x in ops[2:]:
            if t.k == "struct":
                i = x.const(); off = padd(off, C(t.offs[i])); t = t.fields[i]
            elif t.k in ("array", "vector"):
                t = t.elt; off = padd(off, pmul(x, C(t.size)))
            else: raise Unsupported("gep into %s" % t.k)
        return self.padd(base, off)
    def padd(self, base, off):
        if isinstance(base, T) and base.op == "pite":
            return ite(base.a[0], self.padd(base.a[1], off), self.padd(base.a[2], off))
        if isinstance(base, Ptr): return mkptr(base.base, padd(base.off, off))
        return mkptr(base, off)

    # ---- memory access
    def load(self, st, p, tk, ctx):
        if isinstance(p, T) and p.op == "pite":
            c = ctx.implies(p.a[0])
            if c is True: return self.load(st, p.a[1], tk, ctx)
            if c is False: return self.load(st, p.a[2], tk, ctx)
            return ite(p.a[0], self.load(st, p.a[1], tk, ctx.plus([p.a[0]])), self.load(st, p.a[2], tk, ctx.plus([bnot(p.a[0])])))
        if p.base is NULLB: return wrap(mk("ldnull", p.off, tk), tk) if not isvec(tk) else mkvec([wrap(mk("ldnull", p.off, tk[2]), tk[2])] * tk[1])
        return read(st.get(p.base), p.off, tk, ctx)
    def store(self, st, p, tk, v, ctx):
        if isinstance(p, T) and p.op == "pite":
            c = ctx.implies(p.a[0])
            if c is True: return self.store(st, p.a[1], tk, v, ctx)
            if c is False: return self.store(st, p.a[2], tk, v, ctx)
            for arm, cond in ((p.a[1], p.a[0]), (p.a[2], bnot(p.a[0]))):
                if not isinstance(arm, Ptr): raise Unsupported("store through nested conditional pointer")
                old = st.get(arm.base)
                st.d[arm.base] = mite(cond, mk("mstore", old, arm.off, tk, v), old)
            return
        if p.base is NULLB: return
        st.d[p.base] = self.mstore(st.get(p.base), p.off, tk, v)
    def mstore(self, ch, off, tk, v):
        # drop an older store to the very same place
        if ch.op == "mstore" and ch.a[1] is off and ch.a[2] == tk: ch = ch.a[0]
        else:
            # look a little deeper through stores at constant distance
            stack, c = [], ch
            while c.op == "mstore" and len(stack) < 24:
                d = psub(off, c.a[1]).const()
                if d is None: break
                if d == 0 and c.a[2] == tk:
                    ch = c.a[0]
                    for s in reversed(stack): ch = mk("mstore", ch, s.a[1], s.a[2], s.a[3])
                    break
                if not (d >= tsize(c.a[2]) or d <= -tsize(tk)): break
                stack.append(c); c = c.a[0]
        return mk("mstore", ch, off, tk, v)

    # ---- logging (only the final pass over a loop body counts)
    def emit(self, lst, item):
        if all(self.final): lst.append(item)
    def is_final(self): return all(self.final)

    # ------------------------------------------------------------------ functions
    def call(self, f, args, st, ctx, site=()):
        if len(self.callstack) > self.max_depth or f.name in [x.name for x in self.callstack]:
            raise Unsupported("recursion or call depth at %s" % f.name)
        self.funcs_seen.add(f.name)
        env = Env(); env.f = f; env.v = dict(zip(f.args, args)); env.site = site; env.nalloca = 0
        self.callstack.append(f)
        try:
            order, num, idom, loops, inner = analyse_cfg(f)
            reg = Region(self, env, None, order[0], set(order), st, ctx)
            reg.run()
            rets = [b for b in order if b.insts[-1].op == "ret" and b in reg.bst]
            if not rets:
                raise Unsupported("%s never returns" % f.name)
            if len(rets) == 1:
                b = rets[0]
                rv = self.val(env, b.insts[-1].ops[0]) if b.insts[-1].ops else None
                return rv, reg.bst[b]
            # several returns: gated merge
            vals = {}
            def leafv(b): return (self.val(env, b.insts[-1].ops[0]) if b.insts[-1].ops else None)
            memo = {}
            rv = reg.merge_to(lambda b: leafv(b), rets)
            mem = reg.merge_mem(rets)
            return rv, mem
        finally:
            self.callstack.pop()

    def run(self, f, args, ctx=None, st=None):
        """summarise f applied to symbolic arguments"""
        if st is None: st = St({}, self.default_root)
        return self.call(f, args, st, ctx or Ctx(), ())

    # ------------------------------------------------------------------ instructions
    def exec_block(self, env, b, st, ctx, region):
        for x in b.insts:
            o = x.op
            if o == "phi": continue
            v = None
            if o in ("br", "switch", "ret", "unreachable"): break
            try:
                v = self.inst(env, x, st, ctx, region)
            except Unsupported as e:
                if e.args and "@" not in e.args[0]:
                    e.args = ("%s @%s:%s" % (e.args[0], x.file, x.line),)
                raise
            if v is not None:
                env.v[self._iv(x)] = v
        return st
    def _iv(self, x):
        r = getattr(self, "_ivm", None)
        if r is None: r = self._ivm = {}
            
        v = r.get(x)
        if v is None:
            # build reverse map for the function
            for val in self.mod._vals.values():
                if val.kind == "inst" and val.inst is not None: r[val.inst] = val
            v = r[x]
        return v

    def inst(self, env, x, st, ctx, region):
        o = x.op
        V = lambda i: self.val(env, x.ops[i])
        if o == "load":
            p = V(0); tk = tkey(x.ty)
            self.access("load", p, tsize(tk), x.align, ctx, x, st)
            return self.load(st, p, tk, ctx)
        if o == "store":
            v, p = V(0), V(1); tk = tkey(x.ops[0].ty)
            self.access("store", p, tsize(tk), x.align, ctx, x, st, v)
            self.store(st, p, tk, v, ctx)
            return None
        if o == "getelementptr": return self.gep(x.gepty, [V(i) for i in range(len(x.ops))])
        if o in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            bits = x.ty.bits if x.ty.k == "int" else x.ty.elt.bits
            return vmap(lambda a, b: self.iop(o, a, b, bits, ctx), V(0), V(1))
        if o in ("fadd", "fsub", "fmul", "fdiv"):
            return vmap(lambda a, b: fop({"fadd": "f+", "fsub": "f-", "fmul": "f*", "fdiv": "f/"}[o], a, b), V(0), V(1))
        if o == "frem": return vmap(lambda a, b: fcall("fmod", a, b), V(0), V(1))
        if o == "fneg": return vmap(lambda a: fop("fneg", a), V(0))
        if o == "icmp": return vmap(lambda a, b: self.icmp(x.pred, a, b, ctx), V(0), V(1))
        if o == "fcmp": return vmap(lambda a, b: fcmp(x.pred, a, b), V(0), V(1))
        if o == "select":
            c, a, b = V(0), V(1), V(2)
            if isinstance(c, Vec): return mkvec(ite(p, q, r) for p, q, r in zip(c.l, a.l, b.l))
            r = ctx.implies(c)
            return a if r is True else b if r is False else ite(c, a, b)
        if o in ("sext", "zext"):
            sb = (x.ops[0].ty.bits if x.ops[0].ty.k == "int" else x.ops[0].ty.elt.bits)
            if sb == 1: return vmap(lambda a: ite(a, C(-1 if o == "sext" else 1), ZERO), V(0))
            if o == "zext" and sb in (8, 16): return vmap(lambda a: a if ctx.ge0(a) else A(mk("zext%d" % sb, a)), V(0))
            return V(0)
        if o == "trunc":
            db = (x.ty.bits if x.ty.k == "int" else x.ty.elt.bits)
            if db == 1: return vmap(lambda a: bnot(eq0(a)) if not (isinstance(a, T)) else a, V(0))
            if db == 8: return vmap(lambda a: a if a.const() is not None and -128 <= a.const() < 128 else self._tr8(a), V(0))
            if db == 16: return vmap(lambda a: a if a.const() is not None and -32768 <= a.const() < 32768 else self._tr16(a), V(0))
            return V(0)
        if o in ("fpext", "fptrunc"): return V(0)
        if o in ("sitofp", "uitofp"): return vmap(lambda a: itof(a) if isinstance(a, P) else ite(a, fc(-1.0 if o == "sitofp" else 1.0), fc(0)), V(0))
        if o in ("fptosi", "fptoui"): return vmap(lambda a: A(mk("ftoi", a)) if a.op != "fc" else C(int(a.a[0])), V(0))
        if o == "ptrtoint": return ptrint(V(0))
        if o == "inttoptr":
            return mkptr(mk("i2p", V(0)))
        if o == "bitcast": return self.bitcast(V(0), tkey(x.ops[0].ty), tkey(x.ty))
        if o == "freeze": return V(0)
        if o == "alloca":
            n = V(0)
            b = mk("alloca", self.sitekey(env, x), x.name)
            self.objinfo[b] = dict(kind="alloca", size=pscale(n, x.aty.size), align=x.align, inst=x, name=x.name, fn=env.f.name)
            if x.ops[0].kind != "int": st.d[b] = mk("mundef", b)   # fresh VLA
            return mkptr(b)
        if o == "extractelement":
            i = V(1).const()
            if i is None: raise Unsupported("variable lane")
            return V(0).l[i]
        if o == "insertelement":
            i = V(2).const()
            l = list(V(0).l); l[i] = V(1)
            return mkvec(l)
        if o == "shufflevector":
            a, b = V(0), V(1); l = a.l + b.l
            return mkvec(l[m] if m >= 0 else self._undef(x.ty.elt) for m in x.mask)
        if o == "call": return self.do_call(env, x, st, ctx, region)
        if o == "extractvalue": return wrap(mk("xval", V(0), tuple(x.idx)), tkey(x.ty)) if x.ty.k not in ("struct", "array") else mk("xagg", V(0), tuple(x.idx))
        if o == "insertvalue": return mk("ival", V(0), V(1), tuple(x.idx))
        if o == "va_arg": return wrap(mk("vaarg", self.sitekey(env, x)), tkey(x.ty))
        if o == "atomicrmw" or o == "cmpxchg" or o == "fence": raise Unsupported("atomic")
        raise Unsupported("instruction %s" % o)

    def _tr8(self, a):
        if len(a.m) == 1 and a.m[0][1] == 1 and len(a.m[0][0]) == 1 and a.m[0][0][0].op in ("ite", "ld", "zext8", "ldm"): 
            at = a.m[0][0][0]
            return at.a[0] if at.op == "zext8" else a
        return A(mk("tr8", a))

    def _tr16(self, a):
        if len(a.m) == 1 and a.m[0][1] == 1 and len(a.m[0][0]) == 1 and a.m[0][0][0].op == "zext16": return a.m[0][0][0].a[0]
        return A(mk("tr16", a))

    def sitekey(self, env, x):
        return (env.f.name, x.id, env.site, tuple(l.t for l in self.loopstack), tuple(self.unroll_stack))

    def bitcast(self, v, s, d):
        if s == d: return v
        if isvec(s) and isvec(d):
            if s[1] == d[1]: return mkvec(conv(a, s[2], d[2]) for a in v.l)
            a, b = tsize(s[2]), tsize(d[2])
            if a == 4 and b == 8:
                l = [conv(x, s[2], "i32") for x in v.l]
                return mkvec(conv(cat32(l[i], l[i + 1]), "i64", d[2]) for i in range(0, len(l), 2))
            if a == 8 and b == 4:
                l = []
                for x in v.l:
                    p = split32(conv(x, s[2], "i64"))
                    if p is None: raise Unsupported("bitcast %s->%s" % (s, d))
                    l += [conv(y, "i32", d[2]) for y in p]
                return mkvec(l)
            raise Unsupported("bitcast %s->%s" % (s, d))
        if isvec(s) or isvec(d): raise Unsupported("bitcast %s->%s" % (s, d))
        return conv(v, s, d)

    def iop(self, o, a, b, bits, ctx):
        if is_bool(a) or is_bool(b):
            if o == "and": return band(a, b)
            if o == "or": return bor(a, b)
            if o == "xor":
                if b is TRUE: return bnot(a)
                if a is TRUE: return bnot(b)
                return bor(band(a, bnot(b)), band(bnot(a), b))
            raise Unsupported("bool " + o)
        if bits == 64 and o in ("and", "or", "xor") and (_cat(a) or _cat(b)):
            p, q = split32(a), split32(b)
            if p and q: return cat32(self.iop(o, p[0], q[0], 32, ctx), self.iop(o, p[1], q[1], 32, ctx))
        if o == "add": return padd(a, b)
        if o == "sub": return psub(a, b)
        if o == "mul": return pmul(a, b)
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None:
            m = (1 << bits) - 1
            ua, ub = ca & m, cb & m
            r = {"and": ua & ub, "or": ua | ub, "xor": ua ^ ub, "shl": (ua << (ub & 63)) & m}.get(o)
            if o == "lshr": r = ua >> ub
            if o == "ashr": return C(ca >> cb)
            if o == "udiv" and ub: r = ua // ub
            if o == "urem" and ub: r = ua % ub
            if o == "sdiv" and cb: return C(int(abs(ca) // abs(cb)) * (1 if (ca < 0) == (cb < 0) else -1))
            if o == "srem" and cb: return C(abs(ca) % abs(cb) * (1 if ca >= 0 else -1))
            if r is not None:
                return C(r - (1 << bits) if r >> (bits - 1) else r)
        if o == "shl" and cb is not None: return pscale(a, 1 << cb)
        if o in ("udiv", "sdiv", "lshr", "ashr") and cb is not None and cb > 0:
            k = cb if o in ("udiv", "sdiv") else 1 << cb
            if o == "sdiv" and not ctx.ge0(a): return A(mk("sdiv", a, k))
            return fdiv(a, k)
        if o in ("urem", "srem") and cb is not None and cb > 0:
            if o == "srem" and not ctx.ge0(a): return A(mk("srem", a, cb))
            return pmod(a, cb)
        if o == "and":
            for p, c in ((a, cb), (b, ca)):
                if c is None: continue
                if c >= 0 and (c & (c + 1)) == 0: return pmod(p, c + 1)
                if c < 0 and ((-c) & (-c - 1)) == 0: return psub(p, pmod(p, -c))
                if c == -1: return p
        if o == "and" and len(a.m) == 1 or o == "and" and len(b.m) == 1:
            for p, q in ((a, b), (b, a)):
                if len(p.m) == 1 and p.m[0][1] == 1 and len(p.m[0][0]) == 1 and p.m[0][0][0].op == "ite":
                    at = p.m[0][0][0]
                    if at.a[1].const() == -1 and at.a[2].const() == 0: return ite(at.a[0], q, ZERO)
        if o == "or" and cb is not None and cb == 0: return a
        if o == "xor" and cb == -1: return psub(C(-1), a)
        if o in ("udiv", "sdiv") :
            return A(mk("idiv", a, b))
        return A(mk("iop", o, a, b, bits))

    def icmp(self, pred, a, b, ctx):
        if isinstance(a, Ptr) or isinstance(b, Ptr) or (isinstance(a, T) and a.op == "pite") or (isinstance(b, T) and b.op == "pite"):
            return self.pcmp(pred, a, b)
        if is_bool(a) or is_bool(b):
            e = bor(band(a, b), band(bnot(a), bnot(b)))
            return e if pred == "eq" else bnot(e)
        d = psub(a, b)
        if pred == "eq": return eq0(d)
        if pred == "ne": return bnot(eq0(d))
        s = pred[1:]
        r = {"ge": lambda: ge0(d), "gt": lambda: ge0(psub(d, ONE)), "le": lambda: ge0(psub(b, a)), "lt": lambda: ge0(psub(psub(b, a), ONE))}[s]()
        if pred[0] == "u":
            # unsigned: a proven negative operand is a huge value
            na, nb = ctx.ge0(psub(C(-1), a)), ctx.ge0(psub(C(-1), b))
            if na and not nb: return bconst(s in ("ge", "gt"))
            if nb and not na: return bconst(s in ("le", "lt"))
        return r
    def pcmp(self, pred, a, b):
        for p, q in ((a, b), (b, a)):
            if isinstance(p, T) and p.op == "pite":
                x, y = (self.pcmp(pred, p.a[1], q), self.pcmp(pred, p.a[2], q)) if p is a else (self.pcmp(pred, q, p.a[1]), self.pcmp(pred, q, p.a[2]))
                return ite(p.a[0], x, y)
        if not isinstance(a, Ptr) or not isinstance(b, Ptr): return mk("peq", a, b)
        if a.base is b.base:
            return self.icmp(pred, a.off, b.off, Ctx())
        if pred in ("eq", "ne"):
            if a.base is NULLB: a, b = b, a
            if b.base is NULLB:
                if a.base.op in ("alloca", "global", "func") or (a.base.op == "obj" and self.assume_alloc): e = FALSE
                elif a.base.op == "call" and a.base.a[0] in ALLOC and self.assume_alloc: e = FALSE
                else: e = mk("peq", mkptr(a.base, a.off), NULL)
            elif a.base.op == "func" and b.base.op == "func": e = FALSE
            elif a.base.op in ("alloca", "obj") and b.base.op in ("alloca", "obj", "sym", "global"): e = FALSE
            else:
                if a.id > b.id: a, b = b, a
                e = mk("peq", a, b)
            return e if pred == "eq" else bnot(e)
        return mk("plt", pred, a, b)

    # ------------------------------------------------------------------ accesses
    def access(self, kind, p, size, align, ctx, inst, st, val=None):
        if not self.is_final(): return
        if isinstance(p, T) and p.op == "pite":
            r = ctx.implies(p.a[0])
            if r is not False: self.access(kind, p.a[1], size, align, ctx.plus([p.a[0]]), inst, st, val)
            if r is not True: self.access(kind, p.a[2], size, align, ctx.plus([bnot(p.a[0])]), inst, st, val)
            return
        if self.on_access is None: return
        a = Access(); a.kind = kind; a.base, a.off, a.size, a.align, a.ctx, a.inst = p.base, p.off, size if isinstance(size, P) else C(size), align, ctx, inst
        a.fn = self.callstack[-1].name if self.callstack else None
        a.site = tuple(x.name for x in self.callstack); a.loops = tuple(l.t for l in self.loopstack); a.st = st
        self.on_access(a)

    # ------------------------------------------------------------------ calls
    def do_call(self, env, x, st, ctx, region):
        args = []
        for a in x.args:
            if a.kind == "meta": args.append(None)
            else: args.append(self.val(env, a))
        cal = x.callee
        if cal.kind == "func": target = mkptr(mk("func", cal.name))
        elif cal.kind == "asm":
            return self._undef(x.ty) if x.ty.k != "void" else None
        else: target = self.val(env, cal)
        return self.call_target(env, x, target, args, st, ctx, region)

    def call_target(self, env, x, target, args, st, ctx, region):
        if isinstance(target, T) and target.op == "pite":
            r = ctx.implies(target.a[0])
            if r is True: return self.call_target(env, x, target.a[1], args, st, ctx, region)
            if r is False: return self.call_target(env, x, target.a[2], args, st, ctx, region)
            s1, s2 = st.copy(), st.copy()
            v1 = self.call_target(env, x, target.a[1], args, s1, ctx.plus([target.a[0]]), region)
            v2 = self.call_target(env, x, target.a[2], args, s2, ctx.plus([bnot(target.a[0])]), region)
            for b in set(s1.d) | set(s2.d): st.d[b] = mite(target.a[0], s1.get(b), s2.get(b))
            return ite(target.a[0], v1, v2) if v1 is not None and v2 is not None else None
        if target.base.op == "func" and target.off is ZERO:
            name = target.base.a[0]
            f = self.mod.funcs.get(name)
        else:
            name, f = None, None
        key = self.sitekey(env, x)
        ev = Event(); ev.name = name; ev.args = args; ev.loops = tuple(self.loopstack); ev.site = tuple(c.name for c in self.callstack); ev.inst = x; ev.ctx = ctx
        ev.cond = region.path_cond if region is not None else None; ev.ret = None; ev.fn = target; ev.mem = None
        if name is None:
            if self.resolve_icall:
                r = self.resolve_icall(self, target, args, st, ctx, ev)
                if r is not None:
                    return r[0]
            ev.name = "icall"; ev.mem = st.copy()
            self.emit(self.events, ev)
            h = self.hooks.get("icall")
            if h:
                r = h(self, ev, st, ctx, key)
                return r
            if x.ty.k == "void": return None
            return self.opaque_ret(x.ty, mk("icall", target, tuple(a for a in args if a is not None), key))
        base = name.split(".")[0] if not name.startswith("llvm.") else name
        h = self.hooks.get(name) or self.hooks.get(base)
        if h:
            ev.name = base; ev.mem = st.copy()
            self.emit(self.events, ev)
            r = h(self, ev, st, ctx, key)
            if r is not NotImplemented: return r
        if f is not None and not f.decl:
            rv, st2 = self.call(f, args, st, ctx, env.site + (x.id,))
            st.d = st2.d
            return rv
        return self.external(env, x, name, args, st, ctx, key, ev)

    def opaque_ret(self, ty, t):
        if ty.k == "vector": return mkvec(wrap(mk("lane", t, i), tkey(ty.elt)) for i in range(ty.n))
        if ty.k in ("struct", "array"): return t
        return wrap(t, tkey(ty))

    def external(self, env, x, name, args, st, ctx, key, ev):
        if name.startswith("llvm."):
            return self.intrinsic(env, x, name, args, st, ctx, key)
        if name in FCALLS:
            n = FCALLS[name]
            return self.fc_norm(n, args)
        if name == "__assert_fail": return None
        if name == "posix_memalign":
            b = mk("obj", key)
            self.objinfo[b] = dict(kind="heap", size=args[2], align=args[1].const() or 1, inst=x, name="posix_memalign")
            self.store(st, args[0], "ptr", mkptr(b), ctx)
            st.d[b] = mk("mundef", b)
            self.emit(self.events, ev)
            return ZERO
        if name in ALLOC:
            b = mk("obj", key)
            if name == "calloc": size = pmul(args[0], args[1])
            elif name == "realloc": size = args[1]
            elif name in ("aligned_alloc", "memalign"): size = args[1]
            elif name == "strdup": size = A(mk("strlen", args[0]))
            else: size = args[0]
            al = 16
            if name == "_mm_malloc": al = args[1].const() or 16
            if name in ("aligned_alloc", "memalign"): al = args[0].const() or 16
            self.objinfo[b] = dict(kind="heap", size=size, align=al, inst=x, name=name)
            st.d[b] = mk("mundef", b)
            if name == "calloc": st.d[b] = mk("mfill", mk("mundef", b), ZERO, size, ZERO)
            if name == "realloc" and isinstance(args[0], Ptr) and args[0].base in self.objinfo and args[0].off is ZERO:
                st.d[b] = mcopy(st.d[b], ZERO, self.objinfo[args[0].base]["size"], st.get(args[0].base), ZERO)
            ev.ret = mkptr(b)
            self.emit(self.events, ev)
            return mkptr(b)
        if name in ("memcpy", "memmove", "memset"):
            return self.intrinsic(env, x, "llvm." + name, args, st, ctx, key)
        ev.mem = st.copy()
        self.emit(self.events, ev)
        if name == "strlen":
            s = self.cstr(args[0])
            if s is not None: return C(len(s))
            r = A(mk("nn", mk("strlen", args[0])))
            return r
        if name == "strcmp":
            s1, s2 = self.cstr(args[0]), self.cstr(args[1])
            if s1 is not None and s2 is not None: return C(0 if s1 == s2 else 1 if s1 > s2 else -1)
            a, b = (args[1], args[0]) if s1 is not None else (args[0], args[1])
            k = s1 if s1 is not None else s2
            return A(mk("strcmp", a, k if k is not None else b))
        if name not in PURE_EXT:
            # unknown callee: every object whose address is passed may change
            for a in args:
                if isinstance(a, Ptr) and a.base.op in ("alloca", "obj", "sym", "ld"):
                    st.d[a.base] = mk("mhav", key, a.base, tuple(l.t for l in self.loopstack))
        if x.ty.k == "void": return None
        return self.opaque_ret(x.ty, mk("call", name, tuple(a for a in args if a is not None), key))

    def cstr(self, p):
        if isinstance(p, Ptr) and p.base.op == "cstr" and p.off is ZERO: return p.base.a[0]
        if isinstance(p, Ptr) and p.base.op == "global" and p.off.const() is not None:
            s = self.mod.gstring(p.base.a[0])
            return s[p.off.const():] if s is not None else None
        return None

    def fc_norm(self, n, args):
        if n == "fmax" or n == "fmin":
            a, b = args
            if a.id > b.id: a, b = b, a
            return fcall(n, a, b)
        return fcall(n, *args)

    def intrinsic(self, env, x, name, args, st, ctx, key):
        if name.startswith(("llvm.dbg", "llvm.lifetime", "llvm.stacksave", "llvm.stackrestore", "llvm.assume", "llvm.experimental.noalias", "llvm.va_", "llvm.prefetch")):
            if name.startswith("llvm.stacksave"): return mkptr(mk("stk"))
            if name.startswith("llvm.va_"): 
                return None
            return None
        parts = name.split(".")
        b = ".".join(parts[:2])
        if name.startswith(("llvm.fmuladd", "llvm.fma.")):
            return vmap(lambda p, q, r: fop("f+", fop("f*", p, q), r), *args)
        if b in INTRIN1: return vmap(lambda p: self.fc_norm(INTRIN1[b], [p]), args[0])
        if b in INTRIN2: return vmap(lambda p, q: self.fc_norm(INTRIN2[b], [p, q]), args[0], args[1])
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            d, s, n = args[:3]
            self.access("load", s, n, 1, ctx, x, st); self.access("store", d, n, 1, ctx, x, st)
            self.memcpy(st, d, s, n, ctx)
            return d
        if name.startswith("llvm.memset"):
            d, v, n = args[:3]
            self.access("store", d, n, 1, ctx, x, st)
            if isinstance(d, Ptr): st.d[d.base] = mk("mfill", st.get(d.base), d.off, n, v)
            return d
        if name.startswith("llvm.vector.reduce.fadd"):
            r = args[0]
            return fop("f+", r, self.tree(args[1].l))
        if name.startswith("llvm.vector.reduce."):
            k = parts[3]
            l = args[0].l
            if k in ("fmax", "fmin"):
                r = l[0]
                for y in l[1:]: r = fcall(k, r, y)
                return r
            if k == "add":
                r = l[0]
                for y in l[1:]: r = padd(r, y)
                return r
        if name.startswith("llvm.x86"):
            n = ".".join(parts[2:])
            if "max.ps" in n: return vmap(lambda p, q: ite(fcmp("ogt", p, q), p, q), *args[:2])
            if "min.ps" in n: return vmap(lambda p, q: ite(fcmp("olt", p, q), p, q), *args[:2])
            if "round.ps" in n:
                m = args[1].const() & 7
                return vmap(lambda p: fcall({0: "rint", 1: "floor", 2: "ceil", 3: "trunc"}.get(m, "rint"), p), args[0])
            if "cvtt.ps2dq" in n or "cvttps2dq" in n: return vmap(lambda p: A(mk("ftoi", p)), args[0])
            if "cvt.ps2dq" in n or "cvtps2dq" in n: return vmap(lambda p: A(mk("ftoi", fcall("rint", p))), args[0])
            if "blendv" in n:
                def bl(a, c, m): return ite(self.signbit(m), c, a)
                return vmap(bl, *args)
            if "hadd.ps" in n:
                a, c = args[0].l, args[1].l
                out = []
                for h in range(0, len(a), 4):
                    out += [fop("f+", a[h], a[h + 1]), fop("f+", a[h + 2], a[h + 3]), fop("f+", c[h], c[h + 1]), fop("f+", c[h + 2], c[h + 3])]
                return mkvec(out)
            if "pslli" in n: 
                k = args[1].const()
                return vmap(lambda p: pscale(p, 1 << k), args[0])
            if "psrli" in n or "psrai" in n:
                k = args[1].const()
                return vmap(lambda p: fdiv(p, 1 << k), args[0])
            if "rcp" in n or "rsqrt" in n:
                return vmap(lambda p: fcall("approx_" + parts[-2], p), args[0])
            raise Unsupported("intrinsic " + name)
        if b in ("llvm.smax", "llvm.umax"): return vmap(imax, *args)
        if b in ("llvm.smin", "llvm.umin"): return vmap(lambda p, q: psub(ZERO, imax(psub(ZERO, p), psub(ZERO, q))), *args)
        if b == "llvm.abs": return vmap(lambda p: imax(p, psub(ZERO, p)), args[0])
        if b == "llvm.expect": return args[0]
        if b == "llvm.trap": return None
        if b == "llvm.is": return mk("bool", mk("fclass", args[0], args[1]))
        raise Unsupported("intrinsic " + name)
    def tree(self, l):
        r = l[0]
        for y in l[1:]: r = fop("f+", r, y)
        return r
    def signbit(self, m):
        if m.op == "bits2f":
            z = m.a[0]
            if len(z.m) == 1 and z.m[0][1] == 1 and len(z.m[0][0]) == 1 and z.m[0][0][0].op == "ite":
                at = z.m[0][0][0]
                if at.a[1].const() == -1 and at.a[2].const() == 0: return at.a[0]
        if m.op == "ite" and all(y.op == "fc" for y in m.a[1:]):
            sg = []
            for y in m.a[1:]: sg.append(_struct.pack("<f", y.a[0])[3] & 0x80 != 0 if y.a[0] == y.a[0] else True)
            return bite(m.a[0], bconst(sg[0]), bconst(sg[1]))
        return fcmp("olt", m, fc(0))

    def memcpy(self, st, d, s, n, ctx):
        if not isinstance(d, Ptr) or not isinstance(s, Ptr): raise Unsupported("memcpy through conditional pointer")
        st.d[d.base] = mcopy(st.get(d.base), d.off, n, st.get(s.base), s.off)

# --------------------------------------------------------------------------- acyclic regions
class Region:
    """one acyclic region: a function body or the body of a loop, with inner loops collapsed"""
    def __init__(self, I, env, loop, entry, blocks, st, ctx, lits=()):
        self.I, self.env, self.loop, self.entry, self.blocks = I, env, loop, entry, blocks
        self.st0, self.ctx0 = st, ctx
        self.order, self.num, self.idom, self.loops, self.inner = analyse_cfg(env.f)
        self.bst, self.bctx, self.blits = {}, {}, {}
        self.decide = {}        # node key -> [(cond, target, edgekey)]
        self.eout = {}          # edge -> (state, lits)
        self.lits0 = list(lits)
        self.path_cond = None
    def owner(self, b):
        """the child loop of this region containing b, or None"""
        l = self.inner.get(b)
        if l is None: return None
        if l is self.loop: return None
        while l.parent is not self.loop:
            l = l.parent
            if l is None: return None
        return l
    def node(self, b):
        o = self.owner(b)
        return o.header if o is not None else b

    def run(self):
        I, env = self.I, self.env
        self.live_in = {}      # block -> list of edges
        self.live_in[self.entry] = [None]
        done = set()
        for b in self.order:
            if b not in self.blocks: continue
            o = self.owner(b)
            if o is not None and b is not o.header: continue
            edges = self.live_in.get(b)
            if not edges: continue
            self.enter(b, edges)
            if o is not None: self.child(o)
            else: self.block(b)
    def enter(self, b, edges):
        if b is self.entry and edges == [None]:
            self.bst[b] = self.st0.copy(); self.blits[b] = list(self.lits0)
            self.bctx[b] = self.ctx0.plus(self.lits0) if self.lits0 else self.ctx0
            return
        es = [e for e in edges if e is not None]
        if len(es) == 1:
            st, lits = self.eout[es[0]]
            self.bst[b] = st.copy(); self.blits[b] = lits
        else:
            common = None
            for e in es:
                ls = self.eout[e][1]
                common = list(ls) if common is None else [l for l in common if l in ls]
            self.blits[b] = common
            self.bst[b] = self.merge_states(b, es)
        self.bctx[b] = self.ctx0.plus(self.blits[b]) if self.blits[b] else self.ctx0
        self.phis(b, es)
    def phis(self, b, es):
        I, env = self.I, self.env
        out = {}
        for x in b.insts:
            if x.op != "phi": break
            out[x] = self.phival(b, es, x)
        for x, v in out.items(): env.v[I._iv(x)] = v
    def phival(self, b, es, x):
        inc = {p: v for v, p in x.inc}
        def leaf(e):
            return self.I.val(self.env, inc[e[0]])
        if len(es) == 1: return leaf(es[0])
        return self.gated(b, leaf)
    def gated(self, b, leaf, comb=ite, start=None):
        """value at block b as a nested ite over the decisions between its dominator and b"""
        memo = {}
        d = start
        if d is None:
            d = self.idom[b]
            d = self.node(d) if d in self.blocks else self.entry
        def V(n):
            if n in memo: return memo[n]
            memo[n] = UNDEF
            r = None; first = True
            vals = []
            for cond, tgt, e in self.decide.get(n, ()):
                if tgt is b: v = leaf(e)
                elif tgt in self.blocks and self.node(tgt) in self.decide and self.num[self.node(tgt)] > self.num[n]: v = V(self.node(tgt))
                else: v = UNDEF
                if v is UNDEF: continue
                vals.append((cond, v))
            if vals:
                r = vals[-1][1]
                for cond, v in reversed(vals[:-1]): r = comb(cond, v, r)
            else: r = UNDEF
            memo[n] = r
            return r
        return V(d)
    def merge_states(self, b, es):
        bases = set()
        for e in es: bases |= set(self.eout[e][0].d)
        st = St({}, self.eout[es[0]][0].root)
        for base in bases:
            vals = {self.eout[e][0].get(base) for e in es}
            if len(vals) == 1: st.d[base] = next(iter(vals))
            else:
                r = self.gated(b, lambda e: self.eout[e][0].get(base), mite)
                st.d[base] = r
        return st
    def merge_to(self, leaf, rets):
        # several return blocks
        memo = {}
        rs = set(rets)
        def V(n):
            if n in memo: return memo[n]
            if n in rs: memo[n] = leaf(n); return memo[n]
            vals = []
            for cond, tgt, e in self.decide.get(n, ()):
                v = V(self.node(tgt)) if (self.node(tgt) in self.decide or tgt in rs) else UNDEF
                if v is UNDEF: continue
                vals.append((cond, v))
            if not vals: r = UNDEF
            else:
                r = vals[-1][1]
                for cond, v in reversed(vals[:-1]): r = ite(cond, v, r) if v is not None else None
            memo[n] = r
            return r
        return V(self.node(self.entry))
    def merge_mem(self, rets):
        bases = set()
        for b in rets: bases |= set(self.bst[b].d)
        st = St({}, self.bst[rets[0]].root)
        rs = set(rets)
        for base in bases:
            memo = {}
            def V(n):
                if n in memo: return memo[n]
                if n in rs: memo[n] = self.bst[n].get(base); return memo[n]
                vals = []
                for cond, tgt, e in self.decide.get(n, ()):
                    v = V(self.node(tgt)) if (self.node(tgt) in self.decide or tgt in rs) else UNDEF
                    if v is UNDEF: continue
                    vals.append((cond, v))
                if not vals: r = UNDEF
                else:
                    r = vals[-1][1]
                    for cond, v in reversed(vals[:-1]): r = mite(cond, v, r)
                memo[n] = r
                return r
            st.d[base] = V(self.node(self.entry))
        return st
    def reach(self, pred_edge, start=None):
        """boolean condition under which an edge satisfying pred_edge is taken, from the region entry.
        pred_edge(e, target) -> True / False for leaving edges, None for internal ones"""
        memo = {}
        def V(n):
            if n in memo: return memo[n]
            memo[n] = UNDEF
            vals = []
            for cond, tgt, e in self.decide.get(n, ()):
                p = pred_edge(e, tgt)
                if p is True: v = TRUE
                elif p is False: v = FALSE
                else:
                    nn = self.node(tgt)
                    v = V(nn) if nn in self.decide or nn in self.terminal else UNDEF
                if v is UNDEF: continue
                vals.append((cond, v))
            if n in getattr(self, "terminal", {}): r = self.terminal[n]
            elif not vals: r = UNDEF
            else:
                r = vals[-1][1]
                for cond, v in reversed(vals[:-1]): r = bite(cond, v, r)
            memo[n] = r
            return r
        return V(self.node(self.entry) if start is None else start)

    def block(self, b):
        I, env = self.I, self.env
        st, ctx = self.bst[b], self.bctx[b]
        self.cur = b
        self.path_cond = tuple(self.blits[b])
        I.exec_block(env, b, st, ctx, self)
        t = b.insts[-1]
        dec = []
        if t.op == "br":
            if not t.ops: dec.append((TRUE, t.succ[0]))
            else:
                c = I.val(env, t.ops[0])
                if not is_bool(c): c = mk("bool", c) if not isinstance(c, P) else bnot(eq0(c))
                r = ctx.implies(c)
                if r is True: c = TRUE
                elif r is False: c = FALSE
                # sides that only lead to an abort are assumed not taken (checked elsewhere)
                for side, k in ((t.succ[0], c), (t.succ[1], bnot(c))):
                    pass
                ab = [self.aborts(s) for s in t.succ]
                if ab[0] and not ab[1]:
                    I.emit(I.asserts, (bnot(c), ctx, t, env.f.name, tuple(self.blits[b])))
                    dec.append((TRUE, t.succ[1], bnot(c)))
                elif ab[1] and not ab[0]:
                    I.emit(I.asserts, (c, ctx, t, env.f.name, tuple(self.blits[b])))
                    dec.append((TRUE, t.succ[0], c))
                else:
                    if c is not FALSE: dec.append((c, t.succ[0]))
                    if c is not TRUE: dec.append((bnot(c), t.succ[1]))
        elif t.op == "switch":
            v = I.val(env, t.ops[0])
            rest = TRUE
            bytgt = {}
            for k, tgt in t.cases:
                c = eq0(psub(v, C(k)))
                bytgt.setdefault(tgt, []).append(c); rest = band(rest, bnot(c))
            for tgt, cs in bytgt.items():
                c = FALSE
                for y in cs: c = bor(c, y)
                if ctx.implies(c) is not False: dec.append((c, tgt))
            if ctx.implies(rest) is not False:
                if t.succ[0] in bytgt:
                    dec = [(bor(c, rest), tg) if tg is t.succ[0] else (c, tg) for c, tg in dec]
                else: dec.append((rest, t.succ[0]))
        out = []
        for d in dec:
            c, tgt = d[0], d[1]
            fact = d[2] if len(d) > 2 else c
            e = (b, tgt)
            out.append((c, tgt, e))
            lits = self.blits[b] + ([fact] if fact is not TRUE and fact not in self.blits[b] else [])
            self.eout[e] = (st, lits)
            if tgt in self.blocks and not (self.loop is not None and tgt is self.loop.header):
                self.live_in.setdefault(tgt, []).append(e)
        self.decide[b] = out
        if self.loop is not None and self.I.loopstack:
            self.add_exit_facts(b, out)
    def add_exit_facts(self, b, out):
        L = self.I.loopstack[-1]
        if L.li is not self.loop or L.T is None or L.nexit != 1: return
        inside = [e for c, tgt, e in out if tgt in self.blocks]
        if len(inside) < len(out) or (len(out) == 1 and len(b.succ) > 1 and any(s not in self.blocks for s in b.succ)):
            f = ge0(psub(psub(L.T, ONE), A(L.t)))
            for e in inside:
                s, l = self.eout[e]
                if f is not TRUE: self.eout[e] = (s, l + [f])
    def aborts(self, s):
        seen, st = set(), [s]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if len(seen) > 6: return False
            t = x.insts[-1]
            if t.op == "unreachable": continue
            if t.op == "ret": return False
            if not x.succ: return False
            st += x.succ
        return True

    # ---- loops with a decided exit: iterate the abstract transformer
    def unrolled(self, l, inits, st, ctx, lits0):
        I, env = self.I, self.env
        H = l.header
        saved = dict(env.v)
        mark = (len(I.events), len(I.accesses), len(I.asserts), len(I.loopinfo))
        acc = I.on_access; pend = []
        if acc is not None: I.on_access = pend.append
        vals = dict(inits)
        cur, lits = st, list(lits0)
        key = (env.f.name, H.name)
        I.unroll_stack.append(None)
        ok = None
        try:
            for it in range(I.unroll + 1):
                I.unroll_stack[-1] = (key, it)
                for x, v in vals.items(): env.v[I._iv(x)] = v
                reg = Region(I, env, l, H, l.blocks, cur, self.ctx0, list(lits))
                reg.peel = True
                reg.run()
                back = [(c, e) for n in reg.decide for c, t, e in reg.decide[n] if t is H]
                exits = [(n, c, t, e) for n in reg.decide for c, t, e in reg.decide[n] if t not in l.blocks]
                if back and exits: break                      # undecided
                if not back:
                    if not exits: ok = []; break
                    out = []
                    ex = {e for _, _, _, e in exits}
                    reg.terminal = {}
                    for n, c, tgt, e in exits:
                        cond = TRUE
                        if len(exits) > 1:
                            cond = reg.reach(lambda ee, tt: True if ee == e else False if ee in ex else None)
                            if cond is UNDEF: cond = FALSE
                        s2, l2 = reg.eout[e]
                        out.append((cond, e, s2.copy(), l2))
                    ok = out
                    break
                es = [e for _, e in back]
                def at_back(leaf, comb=ite):
                    if len(es) == 1: return leaf(es[0])
                    return reg.gated(H, leaf, comb, start=reg.node(reg.entry))
                nv = {}
                for x in inits:
                    inc = {p: v for v, p in x.inc}
                    nv[x] = at_back(lambda e: I.val(env, inc[e[0]]))
                vals = nv
                common = None
                for e in es:
                    ls = reg.eout[e][1]
                    common = list(ls) if common is None else [y for y in common if y in ls]
                lits = common
                if len(es) == 1: cur = reg.eout[es[0]][0].copy()
                else:
                    bases = set()
                    for e in es: bases |= set(reg.eout[e][0].d)
                    nst = St({}, st.root)
                    for b in bases:
                        vs = {reg.eout[e][0].get(b) for e in es}
                        nst.d[b] = next(iter(vs)) if len(vs) == 1 else at_back(lambda e: reg.eout[e][0].get(b), mite)
                    cur = nst
        finally:
            I.unroll_stack.pop()
            I.on_access = acc
        if ok is None:
            for lst, n in zip((I.events, I.accesses, I.asserts, I.loopinfo), mark): del lst[n:]
            env.v.clear(); env.v.update(saved)
            return None
        if acc is not None:
            for a in pend: acc(a)
        return ok

    # ---- inner loop
    def child(self, l):
        I, env = self.I, self.env
        H = l.header
        st, ctx, lits = self.bst[H], self.bctx[H], self.blits[H]
        self.path_cond = tuple(lits)
        # initial values of the header phis come from the entering edges
        inits = {}
        es = [e for e in self.live_in[H] if e is not None]
        for x in H.insts:
            if x.op != "phi": break
            inits[x] = env.v[I._iv(x)]
        exits = self.unrolled(l, inits, st, ctx, lits) if I.unroll else None
        if exits is None:
            L = Loop(I, env, l, inits, st, ctx, self)
            exits = L.run()
        out = []
        for cond, e, est, elits in exits:
            tgt = e[1]
            out.append((cond, tgt, e))
            self.eout[e] = (est, lits + [x for x in elits if x not in lits])
            if tgt in self.blocks and not (self.loop is not None and tgt is self.loop.header):
                self.live_in.setdefault(tgt, []).append(e)
        self.decide[H] = out
        if self.loop is not None and self.I.loopstack:
            pass

# --------------------------------------------------------------------------- loops
class Loop:
    def __init__(self, I, env, li, inits, st, ctx, outer):
        self.I, self.env, self.li, self.inits, self.st, self.ctx, self.outer = I, env, li, inits, st, ctx, outer
        self.key = (env.f.name, li.header.name, env.site)
        self.t = mk("lv", "t%d" % (len(I.loopstack)), self.key + tuple(x.t for x in I.loopstack))
        self.T = None
        self.phi = {}          # comp key -> term function of t (solved)
        self.comps = {}        # comp key -> (init, phi atom)
        self.modified = set()
        self.solved = {}       # base -> chain at the start of iteration t
        self.reads = {}
        self.cells = {}        # comp key ('cell', base, off) -> info
        self.havoc = set()
        self.optim, self.pre = False, None      # scan for stored objects when the first pass needs to know what is invariant
        self.nexit = sum(1 for b in li.blocks for s in b.succ if s not in li.blocks)

    # root supplying memory at the start of an iteration
    def root(self, base):
        if base in self.solved: return self.solved[base]
        if self.optim: return self.st.get(base)
        if self.passno == 0 and self.pre is not None and base not in self.pre: return self.st.get(base)
        if self.passno > 0 and base not in self.modified: return self.st.get(base)
        return mk("mphi", self.key, base, self.t)

    def run(self):
        I = self.I
        H = self.li.header
        env = self.env
        saved = dict(env.v)
        self.flat = []
        for x, v in self.inits.items():
            self.flat_phi(x, v)
        I.loopstack.append(self)
        I.final.append(False)
        try:
            for self.passno in range(14):
                fin = self.passno > 0 and self.ready()
                I.final[-1] = fin
                mark = (len(I.events), len(I.accesses), len(I.asserts), len(I.loopinfo))
                env.v = dict(saved)
                for x in self.inits: env.v[I._iv(x)] = self.phi_value(x)
                t = A(self.t)
                lits = [ge0(t)] if True else []
                add_atom_fact(self.t, [t])
                if self.T is not None: lits.append(ge0(psub(self.T, t)))
                mkreg = lambda: Region(I, env, self.li, H, self.li.blocks, St({}, self.root), self.ctx, [x for x in lits if x is not TRUE])
                reg = mkreg()
                try: reg.run()
                except Unsupported:
                    if self.passno: raise
                    ev0 = dict(saved); self.optim = True
                    env.v = ev0
                    for x in self.inits: env.v[I._iv(x)] = self.phi_value(x)
                    reg = mkreg(); reg.run(); self.collect(reg)
                    self.optim, self.pre = False, set(self.stored)
                    env.v = dict(saved)
                    for x in self.inits: env.v[I._iv(x)] = self.phi_value(x)
                    reg = mkreg(); reg.run()
                self.reg = reg
                self.collect(reg)
                oldT = self.T
                self.trip(reg)
                built = False
                if fin:
                    r = self.stable()
                    if r is True: break
                    built = r == "built"
                    for lst, n in zip((I.events, I.accesses, I.asserts, I.loopinfo), mark): del lst[n:]
                if not self.solve() and not built and self.passno > 0 and self.T is oldT:
                    self.give_up()
            else:
                raise Unsupported("loop %s does not stabilise" % H.name)
        finally:
            I.loopstack.pop(); I.final.pop()
        res = self.finish(reg, saved)
        return res

    def ready(self):
        return all(c in self.phi for c in self.comps) and all(b in self.solved for b in self.modified)

    # ---- header phis as scalar components
    def flat_phi(self, x, v):
        name = x.name or "p%d" % x.id
        def comp(key, init, kind):
            if key not in self.comps:
                self.comps[key] = (init, mk("phi", "%s" % (key[-1] if not isinstance(key[-1], int) else "%s.%d" % (name, key[-1])), self.key + (key,), kind))
        if isinstance(v, Vec):
            for i, l in enumerate(v.l): comp((x.id, i), l, self.kind(l))
        elif isinstance(v, Ptr): comp((x.id, name), v.off, "int")
        elif isinstance(v, T) and v.op == "pite": comp((x.id, name), v, "ptr")
        else: comp((x.id, name), v, self.kind(v))
        self.flat.append((x, v, name))
    def kind(self, v):
        if isinstance(v, P): return "int"
        if is_bool(v): return "bool"
        if isinstance(v, (Ptr,)): return "ptr"
        return "float"
    def comp_val(self, key):
        if key in self.phi: return self.phi[key]
        init, atom = self.comps[key]
        k = atom.a[2]
        if k == "int": return A(atom)
        if k == "bool": return mk("bool", atom)
        if k == "ptr": return mkptr(atom)
        return atom
    def phi_value(self, x):
        v = self.inits[x]
        name = x.name or "p%d" % x.id
        if isinstance(v, Vec): return mkvec(self.comp_val((x.id, i)) for i in range(len(v.l)))
        if isinstance(v, Ptr):
            if (x.id, "ptr") in self.comps: return self.comp_val((x.id, "ptr"))
            return mkptr(v.base, self.comp_val((x.id, name)))
        return self.comp_val((x.id, name))

    # ---- results of one pass over the body
    def collect(self, reg):
        I, env = self.I, self.env
        H = self.li.header
        self.back = [(c, e) for n in reg.decide for c, t, e in reg.decide[n] if t is H]
        self.exits = [(n, c, t, e) for n in reg.decide for c, t, e in reg.decide[n] if t not in self.li.blocks]
        # value at the back edge(s)
        def at_back(leaf, comb=ite):
            es = [e for _, e in self.back]
            if not es: return UNDEF
            if len(es) == 1: return leaf(es[0])
            return reg.gated(H, leaf, comb, start=reg.node(reg.entry))
        self.next = {}
        if self.back:
            for x in self.inits:
                inc = {p: v for v, p in x.inc}
                nv = at_back(lambda e: I.val(env, inc[e[0]]))
                v = self.inits[x]; name = x.name or "p%d" % x.id
                if isinstance(v, Vec):
                    for i in range(len(v.l)): self.next[(x.id, i)] = nv.l[i]
                elif isinstance(v, Ptr) and (x.id, "ptr") not in self.comps:
                    if isinstance(nv, Ptr) and nv.base is v.base: self.next[(x.id, name)] = nv.off
                    elif self.passno == 0 and isinstance(nv, Ptr) and nv.base.op == "phi": pass
                    else:
                        # base changes: opaque pointer recurrence
                        del self.comps[(x.id, name)]; self.phi.pop((x.id, name), None)
                        self.comps[(x.id, "ptr")] = (v, mk("phi", name, self.key + ((x.id, "ptr"),), "ptr"))
                elif isinstance(v, Ptr): self.next[(x.id, "ptr")] = nv
                else: self.next[(x.id, name)] = nv
        # memory
        self.bmem = {}
        bases = set()
        allst = [reg.eout[e][0] for _, e in self.back] + [reg.eout[e][0] for _, _, _, e in self.exits]
        for s in allst: bases |= set(s.d)
        stored = set()
        for b in bases:
            r = self.root(b)
            if any(s.get(b) is not r for s in allst): stored.add(b)
        self.stored = stored
        for b in stored:
            if self.back:
                self.bmem[b] = at_back(lambda e: reg.eout[e][0].get(b), mite)
        for key, info in self.cells.items():
            b = info["base"]
            ch = self.bmem.get(b)
            if ch is None: ch = self.root(b)
            nx = read(ch, info["next_off"], info["tk"], self.cell_ctx())
            if isvec(info["tk"]):
                for i, l in enumerate(nx.l): self.next[key + (i,)] = l
            elif info["tk"] == "ptr" and info.get("pbase") is not None:
                if isinstance(nx, Ptr) and nx.base is info["pbase"]: self.next[key] = nx.off
                else: self.next[key] = mk("badbase", nx); self.bad_cell = key
            else: self.next[key] = nx
    def cell_ctx(self):
        t = A(self.t)
        l = [ge0(t)]
        if self.T is not None: l.append(ge0(psub(psub(self.T, ONE), t)))
        return self.ctx.plus(l)

    # ---- trip count
    def trip(self, reg):
        reg.terminal = {}
        ex = {e for _, _, _, e in self.exits}
        bk = {e for _, e in self.back}
        E = reg.reach(lambda e, t: True if e in ex else False if e in bk else None)
        if E is UNDEF: E = FALSE
        self.E = E
        self.T = self.trip_of(E)
    def unsolved_in(self, t):
        lv = leaves(t)
        if any(a.op == "phi" and a.a[1][:len(self.key)] == self.key for a in lv): return True
        return any(isinstance(s, T) and s.op == "mphi" and s.a[0] == self.key for s in subterms(t))
    def trip_of(self, E):
        if self.unsolved_in(E): return None
        t = self.t
        if t not in leaves(E):
            r = self.ctx.implies(E)
            if E is TRUE or r is True: return ZERO
        cont = bnot(E)
        lits = _flatand(cont)
        if len(lits) == 1:
            g = lits[0]
            if g.op == "ge0":
                l = plin(g.a[0], t)
                if l and l[0].const() is not None and l[0].const() < 0:
                    c = -l[0].const()
                    a = padd(l[1], C(c))
                    if self.ctx.ge0(a): return fdiv(a, c)
                    return imax(ZERO, fdiv(a, c))
            if g.op == "not" and g.a[0].op == "eq0":
                l = plin(g.a[0].a[0], t)
                if l and l[0].const() in (1, -1):
                    a = l[1] if l[0].const() == -1 else psub(ZERO, l[1])
                    if self.ctx.ge0(a): return a
        bvs, bd = close((t,), (E,))
        return A(mk("trip", bvs, bd))

    # ---- solving recurrences
    def solve(self):
        prog = False
        t = self.t
        self.bad_cell = None
        for key, (init, atom) in list(self.comps.items()):
            if key in self.phi or key not in self.next: continue
            nx = self.next[key]
            k = atom.a[2]
            if k == "int":
                if not isinstance(nx, P): continue
                d = psub(nx, A(atom))
                if not self.unsolved_in(d):
                    if t not in leaves(d): self.phi[key] = padd(init, pmul(d, A(t))); prog = True; continue
                    j = mk("lv", "j", self.key)
                    self.phi[key] = padd(init, mk_isum(j, subst(d, {t: A(j)}), ZERO, A(t))); prog = True; continue
            elif k == "float":
                dl = self.delta(nx, atom)
                if dl is not None and not self.unsolved_in(dl):
                    if dl.op == "fc" and dl.a[0] == 0: self.phi[key] = init
                    else:
                        j = mk("lv", "j", self.key)
                        self.phi[key] = fop("f+", init, mk_fsum(j, subst(dl, {t: A(j)}), ZERO, A(t)))
                    prog = True; continue
            if not self.unsolved_in(nx):
                if nx is init or (t not in leaves(nx) and nx is init):
                    self.phi[key] = init; prog = True; continue
                # value of the previous iteration
                self.phi[key] = ite(eq0(A(t)), init, subst(nx, {t: psub(A(t), ONE)})); prog = True; continue
        # newly modified memory
        new = self.stored - self.modified
        if new:
            self.modified |= new; prog = True
            for b in new: self.solved.pop(b, None)
        if self.passno == 0: return True
        for b in sorted(self.modified - set(self.solved), key=lambda b: b.id):
            if b in self.bmem and self.solve_mem(b): prog = True
        return prog
    def delta(self, nx, phi):
        if nx is phi: return fc(0)
        if phi not in leaves(nx): return None
        if not isinstance(nx, T): return None
        if nx.op == "f+":
            a, b = nx.a
            if phi in leaves(a) and phi not in leaves(b):
                d = self.delta(a, phi); return None if d is None else fop("f+", d, b)
            if phi in leaves(b) and phi not in leaves(a):
                d = self.delta(b, phi); return None if d is None else fop("f+", d, a)
        if nx.op == "f-" and phi in leaves(nx.a[0]) and phi not in leaves(nx.a[1]):
            d = self.delta(nx.a[0], phi); return None if d is None else fop("f-", d, nx.a[1])
        if nx.op == "ite" and phi not in leaves(nx.a[0]):
            x = self.delta(nx.a[1], phi); y = self.delta(nx.a[2], phi)
            if x is not None and y is not None: return ite(nx.a[0], x, y)
        return None

    # ---- memory recurrences
    def solve_mem(self, b):
        ch = self.bmem[b]
        root = mk("mphi", self.key, b, self.t)
        pre = self.st.get(b)
        ws = writes(ch, {root, pre} | ({self.solved[b]} if b in self.solved else set()))
        ph = [a for w in (ws or []) for a in [interval(w)] if False]
        if ws is None: self.why = "opaque root"; return False
        t = self.t; tA = A(t)
        ivs = [interval(w) for w in ws]
        if any(self.unsolved_in(lo) or self.unsolved_in(hi) for lo, hi in ivs): return False
        ctx = self.cell_ctx()
        inv = [i for i in range(len(ws)) if t not in leaves(ivs[i][0]) and t not in leaves(ivs[i][1])]
        rds = self.find_reads(root)
        if len(inv) == len(ws):
            if all(w.op == "mstore" for w in ws): return self.solve_cells(b, ch, ws, root, pre)
            return self.solve_pointwise(b, ch, ws, root, pre, ctx)
        return self.solve_stream(b, ch, ws, ivs, root, pre, ctx, rds)

    def find_reads(self, root):
        """offsets at which the body reads the iteration-start content of the object"""
        out = {}
        terms = list(self.next.values()) + list(self.bmem.values()) + [self.E]
        seen = set()
        for e in self.I.events[-0:]: pass
        for tm in terms:
            if tm is None: continue
            for s in subterms(tm, seen):
                if isinstance(s, T) and s.op == "ldm" and s.a[0] is root: out[(s.a[1], s.a[2])] = s
        return out

    def solve_cells(self, b, ch, ws, root, pre):
        cells = {}
        for w in ws:
            k = (w.a[1], w.a[2])
            for (o, tk) in cells:
                d = psub(o, w.a[1]).const()
                if (o, tk) != k:
                    if d is None or not (d >= tsize(w.a[2]) or -d >= tsize(tk)): self.why = "overlapping cells"; return False
            cells[k] = w
        base = pre
        for (o, tk), w in cells.items():
            init = read(pre, o, tk, self.ctx)
            base = mk("mstore", base, o, tk, self.new_cell(b, o, o, tk, init))
        self.solved[b] = base
        return True
    def new_cell(self, b, off, next_off, tk, init):
        key = ("cell", b, off, tk)
        info = dict(base=b, off=off, next_off=next_off, tk=tk)
        self.cells[key] = info
        nm = "cell"
        if isvec(tk):
            out = []
            for i, l in enumerate(init.l):
                self.comps[key + (i,)] = (l, mk("phi", nm, self.key + (key + (i,),), self.kind(l)))
                out.append(self.comp_val(key + (i,)))
            return mkvec(out)
        if tk == "ptr" and isinstance(init, Ptr):
            info["pbase"] = init.base
            self.comps[key] = (init.off, mk("phi", nm, self.key + (key,), "int"))
            return mkptr(init.base, A(self.comps[key][1]))
        self.comps[key] = (init, mk("phi", nm, self.key + (key,), "ptr" if tk == "ptr" else self.kind(init)))
        return self.comp_val(key)

    def refresh_cells(self):
        """re-insert solved cell values into the iteration-start chains"""
        mp = {}
        for key, (init, atom) in self.comps.items():
            if key in self.phi and (key[0] == "cell"):
                v = self.phi[key]
                mp[atom] = v
        if mp:
            for b in list(self.solved):
                self.solved[b] = subst(self.solved[b], mp)

    def solve_pointwise(self, b, ch, ws, root, pre, ctx):
        """the body rewrites a fixed region element by element"""
        segs = [w for w in ws if w.op in ("mseg", "mfill", "mcopy", "mloop")]
        los = {interval(w)[0] for w in ws}
        his = {interval(w)[1] for w in ws}
        lo = None
        for l in los:
            if all(ctx.ge0(psub(o, l)) for o in los): lo = l; break
        hi = None
        for h in his:
            if all(ctx.ge0(psub(h, o)) for o in his): hi = h; break
        if lo is None or hi is None: self.why = "pointwise bounds"; return False
        es = 4; tk = "f32"
        for w in segs:
            if w.op == "mseg": es, tk = w.a[5], w.a[6]
        cnt = pdiv_exact(psub(hi, lo), es)
        if cnt is None: self.why = "pointwise size"; return False
        kap = mk("lv", "k", self.key)
        add_atom_fact(kap, [A(kap)])
        c2 = ctx.plus([ge0(A(kap)), ge0(psub(psub(cnt, ONE), A(kap)))])
        off = padd(lo, pscale(A(kap), es))
        val = read(ch, off, tk, c2)
        own = mk("ldm", root, off, tk)
        init = read(pre, off, tk, c2)
        mp = {}
        for (o2, tk2), s in self.find_reads(root).items():
            # reads of the same object outside the rewritten region see the content before the loop
            if ctx.ge0(psub(psub(lo, o2), C(tsize(tk2)))) or ctx.ge0(psub(o2, hi)): mp[s] = read(pre, o2, tk2, ctx)
        for s, r in mp.items(): val = subst_term(val, s, r)
        if not isinstance(val, T) : 
            if isinstance(val, P) and not self.unsolved_in(val): pass
            else: self.why = "pointwise type"; return False
        e = mk("phi", "e", self.key + ("pt", b), "float")
        nv = subst_term(val, own, e)
        if any(isinstance(s, T) and s.op == "mphi" and s.a[0] == self.key for s in subterms(nv)): self.why = "pointwise reads other elements"; return False
        d = self.delta(nv, e) if isinstance(nv, T) else None
        t = self.t
        if d is not None and not self.unsolved_in(d):
            j = mk("lv", "j", self.key)
            f = fop("f+", init, mk_fsum(j, subst(d, {t: A(j)}), ZERO, A(t))) if not (d.op == "fc" and d.a[0] == 0) else init
        elif e not in leaves(nv) and not self.unsolved_in(nv):
            f = ite(eq0(A(t)), init, subst(nv, {t: psub(A(t), ONE)}))
        else:
            if self.unsolved_in_except(nv, e): self.why = "pointwise unsolved"; return False
            f = self.mkrec([(e, init, nv)], 0)
        bvs, bd = close((kap,), (f,))
        self.solved[b] = mseg(bvs, bd, pre, lo, cnt, es, tk)
        return True
    def unsolved_in_except(self, t, e):
        return self.unsolved_in(subst(t, {e: fc(0)}))
    def mkrec(self, sys, i):
        """closed recurrence: sys = [(atom, init, next)]"""
        t = self.t
        bvs, bd = close((t,) + tuple(a for a, _, _ in sys), tuple(n for _, _, n in sys))
        k = sys[i][0].a[2]
        # bound variables of recurrences stand for values of their own kind
        r = mk("rec", bvs, bd, tuple(x for _, x, _ in sys), A(t), i, tuple(a.a[2] for a, _, _ in sys))
        if k == "int": return A(r)
        if k == "bool": return mk("bool", r)
        if k == "ptr": return mkptr(r)
        return r

    def solve_stream(self, b, ch, ws, ivs, root, pre, ctx, rds):
        t = self.t; tA = A(t)
        lo = hi = None
        for i, (l, h) in enumerate(ivs):
            if all(ctx.ge0(psub(l2, l)) for l2, _ in ivs): lo = l
            if all(ctx.ge0(psub(h, h2)) for _, h2 in ivs): hi = h
        if lo is None or hi is None: self.why = "stream hull"; return False
        nlo, nhi = subst(lo, {t: padd(tA, ONE)}), subst(hi, {t: padd(tA, ONE)})
        if ctx.ge0(psub(nlo, hi)): asc = True
        elif ctx.ge0(psub(lo, nhi)): asc = False
        else: self.why = "stream overlap"; return False
        lo0, hi0 = subst(lo, {t: ZERO}), subst(hi, {t: ZERO})
        step = psub(nlo, lo)
        # reads of the iteration-start content
        prevoff = []
        for (o, tk), _ in rds.items():
            if self.unsolved_in(o): self.why = "stream read offset"; return False
            sz = C(tsize(tk))
            if asc:
                if ctx.ge0(psub(o, lo)) or ctx.ge0(psub(lo0, padd(o, sz))): continue
            else:
                if ctx.ge0(psub(hi, padd(o, sz))) or ctx.ge0(psub(o, hi0)): continue
            prevoff.append((o, tk))
        if prevoff and not any(k[0] == "cell" and k[1] is b for k in self.comps):
            # distance-one dependence: a moving cell
            ok = len({k for k in prevoff}) == 1 and t not in leaves(step)
            if ok:
                o, tk = prevoff[0]
                w = [x for x in ws if x.op == "mstore"]
                if len(ws) == len(w) and any(ctx.eq(psub(x.a[1], step), o) and x.a[2] == tk for x in w):
                    init = read(pre, subst(o, {t: ZERO}), tk, self.ctx)
                    v = self.new_cell(b, o, padd(o, step), tk, init)
                    part = self.part(pre, lo0, hi0, lo, hi, asc)
                    self.solved[b] = mk("mstore", part, o, tk, v)
                    self.pending = getattr(self, "pending", set()) | {b}
                    return True
        # process: does the final value still contain iteration-start reads?
        unresolved = [s for s in subterms(ch) if isinstance(s, T) and s.op == "mphi" and s.a[0] == self.key and s is not root]
        bad = False
        if not hasattr(self, "staged"): self.staged = set()
        if b not in self.staged:
            if prevoff and not any(k[0] == "cell" and k[1] is b for k in self.comps): 
                self.why = "stream reads earlier elements"; 
                self.staged.add(b)
                return False
            # stage 1: elements not yet processed still hold their old value
            self.staged.add(b)
            self.solved[b] = self.part(pre, lo0, hi0, lo, hi, asc)
            self.stage1 = getattr(self, "stage1", set()) | {b}
            return True
        return False
    def part(self, pre, lo0, hi0, lo, hi, asc):
        t = self.t
        if asc: return mpart(pre, lo0, lo, self.key)
        return mpart(pre, hi, hi0, self.key)

    def build_stream(self, b, ch, ctx):
        """closed form of a stream after t iterations"""
        t = self.t; tA = A(t)
        pre = self.st.get(b)
        root = self.solved[b]
        stop = {root, pre}
        x = root
        while x.op in ("mstore", "mpart") and x is not pre:
            stop.add(x); x = x.a[0]
        ws = writes(ch, stop)
        if not ws: return None
        ivs = [interval(w) for w in ws]
        lo = hi = None
        for l, h in ivs:
            if all(ctx.ge0(psub(l2, l)) for l2, _ in ivs): lo = l
            if all(ctx.ge0(psub(h, h2)) for _, h2 in ivs): hi = h
        if lo is None or hi is None: return None
        step = psub(subst(lo, {t: padd(tA, ONE)}), lo)
        W = psub(hi, lo).const(); S = step.const()
        lo0 = subst(lo, {t: ZERO})
        tks = {w.a[2] if w.op == "mstore" else None for w in ws}
        if W is not None and S is not None and abs(S) == W and None not in tks:
            ets = {k[2] if isvec(k) else k for k in tks}
            if len(ets) == 1:
                et = next(iter(ets)); es = tsize(et); n = W // es
                vals = [read(ch, padd(lo, C(es * l)), et, ctx) for l in range(n)]
                if not any(self.has_part(v) for v in vals):
                    f = self.uniform(vals, n, S < 0)
                    if f is not None:
                        kap, body = f
                        bvs, bd = close((kap,), (body,))
                        if S > 0: return mseg(bvs, bd, pre, lo0, pscale(tA, n), es, et)
                        # descending: element index counted from the lowest address
                        lowest = padd(lo0, pscale(psub(tA, ONE), S))
                        # body is in terms of the distance from the top; re-index
                        q = mk("lv", "q", self.key)
                        body2 = subst(body, {kap: psub(psub(pscale(tA, n), ONE), A(q))})
                        bvs, bd = close((q,), (body2,))
                        return mseg(bvs, bd, pre, lowest, pscale(tA, n), es, et)
        # general strided effect
        hole = mk("mhole")
        body = subst_term(ch, root, hole)
        for s in stop: body = subst_term(body, s, hole) if s is not pre else body
        if self.has_part(body): return None
        if ctx.ge0(psub(subst(lo, {t: padd(tA, ONE)}), hi)) is False: return None
        bvs, bd = close((t,), (body, lo, hi))
        return mloop(bvs, bd, pre, tA)
    def has_part(self, v):
        for s in subterms(v):
            if isinstance(s, T):
                if s.op == "mpart" and s.a[3] == self.key: return True
                if s.op == "mphi" and s.a[0] == self.key: return True
        return False
    def uniform(self, vals, n, desc):
        """lane values v_l(t) as one function of the element index k = n*t+l"""
        t = self.t; kap = mk("lv", "kap", self.key)
        add_atom_fact(kap, [A(kap)])
        if n == 1: return kap, subst(vals[0], {t: A(kap)})
        order = vals if not desc else vals[::-1]
        f = stretch(order[0], t, kap, n)
        if f is not None:
            ok = True
            for l in range(n):
                if subst(f, {kap: padd(pscale(A(t), n), C(l))}) is not order[l]: ok = False; break
            if ok: return kap, f
        # lane dependent: select by lane
        q = fdiv(A(kap), n)
        sel = psub(A(kap), pscale(q, n))
        vs = [subst(v, {t: q}) for v in order]
        r = vs[-1]
        for l in range(n - 2, -1, -1): r = ite(eq0(psub(sel, C(l))), vs[l], r)
        return kap, r

    def stable(self):
        """after a final pass: check that nothing new was modified, build closed-form streams"""
        if self.stored - self.modified: return False
        if getattr(self, "stage1", None) or getattr(self, "pending", None):
            ctx = self.cell_ctx()
            todo = getattr(self, "stage1", set()) | getattr(self, "pending", set())
            for b in sorted(todo, key=lambda b: b.id):
                ch = self.bmem.get(b)
                r = self.build_stream(b, ch, ctx) if ch is not None else None
                if r is None: 
                    r = mk("mhav", self.key, b, self.t)
                    self.havoc.add(b)
                self.solved[b] = r
            self.stage1, self.pending = set(), set()
            for key in [k for k in self.cells if self.cells[k]["base"] in todo]:
                info = self.cells.pop(key)
                for c in [c for c in self.comps if c[:len(key)] == key]: del self.comps[c]
            return "built"
        return True

    def give_up(self):
        """remaining unsolved components become opaque recurrences / havocked memory"""
        un = [c for c in self.comps if c not in self.phi]
        bad = [b for b in self.modified if b not in self.solved]
        if bad:
            for b in bad:
                self.havoc.add(b)
                self.solved[b] = mk("mhav", self.key, b, self.t)
                self.I.unsupported.append((self.env.f.name, self.li.header.name, "memory %s: %s" % (show(b, 3), getattr(self, "why", "?"))))
            return
        sysm = []
        for c in un:
            init, atom = self.comps[c]
            nx = self.next.get(c)
            if nx is None or (isinstance(nx, T) and nx.op == "badbase"): nx = None
            sysm.append((c, atom, init, nx))
        good = [(a, i, n) for _, a, i, n in sysm if n is not None]
        idx = {a: k for k, (a, _, _) in enumerate(good)}
        if any(any(isinstance(s, T) and s.op == "mphi" and s.a[0] == self.key for s in subterms(n)) for _, _, n in good): good = []; idx = {}
        if len(good) > 24: good, idx = [], {}
        for c, atom, init, nx in sysm:
            # keep only the part of the system this component depends on
            if atom in idx and idx:
                need, st = [], [atom]
                while st:
                    a = st.pop()
                    if a in need: continue
                    need.append(a)
                    for l in leaves(good[idx[a]][2]):
                        if l in idx: st.append(l)
                need = sorted(need, key=lambda a: idx[a])
                sub = [good[idx[a]] for a in need]
                self.phi[c] = self.mkrec(sub, need.index(atom))
            else:
                self.phi[c] = wrap(mk("opq", self.key, c, A(self.t)), {"int": "i64", "bool": "i1", "ptr": "ptr", "float": "f32"}[atom.a[2]])
        if not un:
            raise Unsupported("loop %s at %s: no progress" % (self.li.header.name, self.env.f.name))

    def finish(self, reg, saved):
        I, env = self.I, self.env
        t, Tn = self.t, self.T
        if Tn is None: raise Unsupported("no trip count for %s" % self.li.header.name)
        mp = {t: Tn}
        memo = {}
        newv = env.v
        env.v = dict(saved)
        for k, v in newv.items():
            if k in saved and saved[k] is v: continue
            if isinstance(v, Base): env.v[k] = subst(v, mp, memo)
            else: env.v[k] = v
        if all(I.final): I.loopinfo.append((env.f.name, self.li.header, Tn, tuple(x.t for x in I.loopstack)))
        out = []
        ctx = self.ctx
        for n, c, tgt, e in self.exits:
            st, lits = reg.eout[e]
            cond = TRUE
            if len(self.exits) > 1:
                ex = {y[3] for y in self.exits}; bk = {y[1] for y in self.back}
                cond = reg.reach(lambda ee, tt: True if ee is e or ee == e else False if (ee in ex or ee in bk) else None)
                if cond is UNDEF: cond = FALSE
                cond = subst(cond, mp, memo)
            ns = St(dict(self.st.d), self.st.root)
            for b in self.modified | self.stored | set(st.d):
                ch = st.get(b)
                if ch is self.st.get(b): continue
                ch2 = subst(ch, mp, memo)
                ns.d[b] = consolidate(ch2, ctx.plus([subst(l, mp, memo) for l in lits]), I)
            nl = [subst(l, mp, memo) for l in lits]
            nl = [l for l in nl if l is not TRUE]
            out.append((cond, e, ns, nl))
        return out

# patch: cells solved in earlier passes must be visible in iteration-start chains
_orig_ready = Loop.ready
def _ready(self):
    self.refresh_cells()
    return _orig_ready(self)
Loop.ready = _ready

def subst_term(t, old, new):
    return subst(t, {old: new})

def stretch(v, t, kap, n):
    """rewrite v(t), whose t-dependence is only through n*t, as a function of kap = n*t"""
    class No(Exception): pass
    memo = {}
    def go(x):
        if isinstance(x, tuple): return tuple(go(y) if isinstance(y, (Base, tuple)) else y for y in x)
        if x in memo: return memo[x]
        if t not in leaves(x): r = x
        elif isinstance(x, P):
            r = ZERO
            for mo, c in x.m:
                k = mo.count(t)
                if k > 1: raise No()
                if k == 1:
                    if c % n: raise No()
                    p = A(kap); p = pscale(p, c // n)
                    rest = [a for a in mo if a is not t]
                else: p = C(c); rest = list(mo)
                for a in rest:
                    v2 = go(a); p = pmul(p, v2 if isinstance(v2, P) else A(v2))
                r = padd(r, p)
        elif isinstance(x, Ptr): r = mkptr(go(x.base), go(x.off))
        elif isinstance(x, Vec): r = mkvec(go(y) for y in x.l)
        elif x is t: raise No()
        else:
            r = rebuild(x.op, [go(y) if isinstance(y, (Base, tuple)) else y for y in x.a])
        memo[x] = r
        return r
    try: return go(v)
    except No: return None

SAME = None      # installed by equal.py: approximate/exact equality of two element functions

def consolidate(ch, ctx, I=None):
    """merge adjacent segments that hold the same element function"""
    for _ in range(12):
        if ch.op == "mseg":
            prev = ch.a[2]
            r = _merge(ch, prev, ctx)
            if r is None: return ch
            ch = r
        elif ch.op == "mstore" and not isvec(ch.a[2]):
            if ch.a[0].op == "mseg":
                r = _merge(_as_seg(ch), ch.a[0], ctx)
                if r is None: return ch
                ch = r
            else: return ch
        else: return ch
    return ch
def _as_seg(w):
    k = mk("lv", "one", ())
    bvs, bd = close((k,), (w.a[3],))
    return mk("mseg", bvs, bd, w.a[0], w.a[1], ONE, tsize(w.a[2]), w.a[2])
def _merge(s2, s1, ctx):
    if s1.op != "mseg": return None
    if s1.a[5] != s2.a[5] or s1.a[6] != s2.a[6]: return None
    es = s1.a[5]
    lo1, c1, lo2, c2 = s1.a[3], s1.a[4], s2.a[3], s2.a[4]
    e1, e2 = padd(lo1, pscale(c1, es)), padd(lo2, pscale(c2, es))
    q = mk("lv", "mq", ())
    if ctx.eq(e1, lo2):
        f1 = open1(s1, 0, A(q)); f2 = open1(s2, 0, psub(A(q), c1))
        lo, cnt = lo1, padd(c1, c2)
        if s2.a[4].const() == 1: f2c = open1(s2, 0, ZERO); f1c = open1(s1, 0, c1); same = f1c is f2c or (SAME and SAME(f1c, f2c, ctx))
        else: same = f1 is f2 or (SAME and SAME(f1, f2, ctx.plus([ge0(psub(A(q), c1)), ge0(psub(psub(padd(c1, c2), ONE), A(q)))])))
        if same: fbest = f1           # f1 was shown to agree with f2 on the second part only
    elif ctx.eq(e2, lo1):
        f2 = open1(s2, 0, A(q)); f1 = open1(s1, 0, psub(A(q), c2))
        lo, cnt = lo2, padd(c1, c2)
        same = f1 is f2 or (SAME and SAME(f1, f2, ctx.plus([ge0(A(q)), ge0(psub(psub(padd(c1, c2), ONE), A(q)))])))
        if same: fbest = better(f1, f2)
    elif ctx.eq(lo1, lo2) and ctx.eq(c1, c2):
        return mk("mseg", s2.a[0], s2.a[1], s1.a[2], lo2, c2, es, s2.a[6])
    else: return None
    if not same: return None
    bvs, bd = close((q,), (fbest,))
    return mseg(bvs, bd, s1.a[2], lo, cnt, es, s1.a[6])
def tsz(t):
    return sum(1 for _ in subterms(t))
def better(f1, f2):
    return f1 if tsz(f1) <= tsz(f2) else f2
