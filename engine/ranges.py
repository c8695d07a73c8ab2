"""Interval analysis of scalar code: every SSA value gets an interval, a lower bound on its magnitude when it is not
zero, and a may-be-NaN flag; static variables get one flow-insensitive interval; branch conditions that dominate a use
refine the operands. Reports floating-point operations that can produce NaN or infinity from finite operands."""
import math, struct
from interp import analyse_cfg
INF = float("inf")
FMAX = 3.4028234663852886e38
def f32up(x):
    return x
class R:
    """lo <= x <= hi; |x| >= mnz unless x == 0; nz: never zero; nan: may be NaN"""
    __slots__ = ("lo", "hi", "mnz", "nz", "nan")
    def __init__(s, lo, hi, mnz=0.0, nz=False, nan=False):
        if lo > 0: mnz = max(mnz, lo); nz = True
        if hi < 0: mnz = max(mnz, -hi); nz = True
        if nz and lo == 0: lo = mnz
        if nz and hi == 0: hi = -mnz
        s.lo, s.hi, s.mnz, s.nz, s.nan = lo, hi, mnz, nz, nan
    def __repr__(s): return "[%g,%g]%s%s%s" % (s.lo, s.hi, "" if not s.mnz else " |x|>=%g or 0" % s.mnz, " nonzero" if s.nz else "", " nan" if s.nan else "")
    def same(s, o): return (s.lo, s.hi, s.mnz, s.nz, s.nan) == (o.lo, o.hi, o.mnz, o.nz, o.nan)
    def zero(s): return not s.nz and s.lo <= 0 <= s.hi
def pt(v): return R(v, v, abs(v), v != 0, v != v)
def join(a, b):
    if a is None: return b
    if b is None: return a
    m = [x.mnz for x in (a, b) if not (x.lo == x.hi == 0)]
    return R(min(a.lo, b.lo), max(a.hi, b.hi), min(m) if m else 0.0, a.nz and b.nz, a.nan or b.nan)
TOP = R(-INF, INF, 0.0, False, True)
FTOP = R(-FMAX, FMAX)

class Ranges:
    def __init__(self, mod, externs=None):
        self.mod = mod; self.externs = externs or {}
        self.glob = {}          # global name -> R (static variables, flow-insensitive)
        self.alarms = {}        # inst -> text
        self.ret = {}
        self.active = []
        self.unknown = []
        self.calls = {}
    def analyse(self, fname, rounds=12):
        """fixpoint over the static variables reachable from fname"""
        r = None
        for k in range(rounds):
            before = dict(self.glob)
            self.alarms = {}; self.unknown = []
            r = self.func(self.mod.funcs[fname], ())
            if before.keys() == self.glob.keys() and all(before[g].same(self.glob[g]) for g in before): return r
            if k > 6:
                for g in self.glob:
                    if g in before and not before[g].same(self.glob[g]): self.glob[g] = TOP
        self.unknown.append("no fixpoint"); return r
    def func(self, f, args):
        if f in self.active: self.unknown.append("recursion"); return TOP
        self.active.append(f)
        try: return F(self, f, args).run()
        finally: self.active.pop()
    def gl(self, name, ty):
        if name not in self.glob:
            g = self.mod.globals.get(name)
            if g is not None and g.init is not None and g.init.kind in ("int", "fp"): self.glob[name] = pt(float(g.init.v))
            elif g is not None and g.init is not None and g.init.kind == "zero": self.glob[name] = pt(0.0)
            else: self.glob[name] = TOP
        return self.glob[name]

class F:
    def __init__(self, A, f, args):
        self.A, self.f = A, f
        self.env = {}
        for a, r in zip(f.args, args): self.env[a] = r
        self.dom = self.dominators()
    def dominators(self):
        bl = self.f.blocks; full = set(bl)
        d = {b: (full if b is not bl[0] else {b}) for b in bl}
        ch = True
        while ch:
            ch = False
            for b in bl[1:]:
                p = [d[x] for x in b.preds]
                n = (set.intersection(*p) if p else set()) | {b}
                if n != d[b]: d[b] = n; ch = True
        return d
    def conds(self, b):
        """(condition value, truth) pairs known to hold in block b"""
        out = []
        for a in self.dom[b]:
            if len(a.preds) == 1:
                t = a.preds[0].insts[-1]
                if t.op == "br" and len(t.succ) == 2 and t.succ[0] is not t.succ[1]:
                    out.append((t.ops[0], t.succ[0] is a))
        return out
    def run(self):
        rets = None
        order = self.f.blocks
        for rnd in range(40):
            changed = False
            self.reach = {order[0]}
            work = True
            while work:
                work = False
                for b in list(self.reach):
                    for s in b.succ:
                        if s not in self.reach: self.reach.add(s); work = True
            for b in order:
                if b not in self.reach: continue
                for x in b.insts:
                    r = self.inst(x, b)
                    if r is None: continue
                    v = x
                    old = self.env.get(v)
                    if old is not None:
                        r = join(old, r) if x.op == "phi" else r
                        if rnd > 20 and x.op == "phi" and not r.same(old): r = TOP
                    if old is None or not r.same(old): self.env[v] = r; changed = True
            if not changed: break
        for b in order:
            t = b.insts[-1]
            if t.op == "ret" and t.ops: rets = join(rets, self.use(t.ops[0], b))
        return rets if rets is not None else R(0, 0)
    # ---- operands
    def key(self, v): return v.inst if v.kind == "inst" else v
    def raw(self, v):
        if v.kind in ("int", "fp"): return pt(float(v.v))
        if v.kind == "null": return pt(0.0)
        r = self.env.get(self.key(v))
        return r
    def use(self, v, b):
        r = self.raw(v)
        if r is None: return TOP if v.kind != "inst" else None
        for c, t in self.conds(b): 
            r = self.refine(v, r, c, t)
            if r is None: return None
        return r
    def refine(self, v, r, c, t):
        if c.kind != "inst": return r
        x = c.inst
        if x.op == "xor" and len(x.ops) == 2 and x.ops[1].kind == "int": return self.refine(v, r, x.ops[0], not t)
        conj = None
        if x.op == "and": conj = True
        elif x.op == "or": conj = False
        elif x.op == "select" and x.ty.k == "int":
            a, p, q = x.ops
            if p.kind == "int" and p.v: conj, parts = False, (a, q)
            elif q.kind == "int" and not q.v: conj, parts = True, (a, p)
        if conj is not None:
            if x.op in ("and", "or"): parts = x.ops
            if conj == t:
                for p in parts:
                    r = self.refine(v, r, p, t)
                    if r is None: return None
            return r
        if x.op not in ("fcmp", "icmp"): return r
        a, b = x.ops
        p = x.pred
        if self.key(b) is self.key(v) and b.kind == v.kind:
            a, b = b, a
            p = {"olt": "ogt", "ogt": "olt", "ole": "oge", "oge": "ole", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(p, p)
        if not (a.kind == v.kind and self.key(a) is self.key(v)): 
            return self.refine_sub(v, r, a, b, p, t)
        k = self.raw(b)
        if k is None: return r
        return self.cut(r, p, t, k, x.op == "fcmp")
    def refine_sub(self, v, r, a, b, p, t):
        return r
    def cut(self, r, p, t, k, fl):
        if fl:
            o = p[0] == "o"; rel = p[1:]
            if not t:
                rel = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "eq": "ne", "ne": "eq"}.get(rel, None)
                keepnan = o
            else: keepnan = not o
            if p in ("ord", "uno", "true", "false") or rel is None: return r
            nan = r.nan and keepnan
            step = lambda z, up: math.nextafter(z, INF if up else -INF)
        else:
            rel = {"eq": "eq", "ne": "ne"}.get(p, p[1:])
            if not t: rel = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "eq": "ne", "ne": "eq"}[rel]
            nan = False
            step = lambda z, up: z + (1 if up else -1)
        lo, hi, nz = r.lo, r.hi, r.nz
        if rel == "lt": hi = min(hi, step(k.hi, False))
        elif rel == "le": hi = min(hi, k.hi)
        elif rel == "gt": lo = max(lo, step(k.lo, True))
        elif rel == "ge": lo = max(lo, k.lo)
        elif rel == "eq": lo, hi = max(lo, k.lo), min(hi, k.hi)
        elif rel == "ne" and k.lo == k.hi == 0: nz = True
        if lo > hi: return R(0, 0, 0, False, True) if nan else None
        if nz and lo == 0 == hi: return None
        if lo == 5e-324 or (lo > 0 and r.mnz > lo): lo = max(lo, min(r.mnz, hi)) if r.mnz else lo
        return R(lo, hi, r.mnz, nz, nan)
    # ---- instructions
    def alarm(self, x, text): self.A.alarms.setdefault(x, text)
    def out(self, x, lo, hi, mnz=0.0, nz=False, nan=False):
        if x.ty.k in ("float",):
            if (hi > FMAX or lo < -FMAX): self.alarm(x, "the result can overflow (%g..%g)" % (lo, hi))
            if mnz and mnz < 1.5e-45: mnz = 0.0; nz = False
        return R(lo, hi, mnz, nz, nan)
    def inst(self, x, b):
        o = x.op
        if o in ("br", "ret", "switch", "unreachable"): return None
        if o == "phi":
            r = None
            for v, p in x.inc:
                if p not in self.reach: continue
                u = self.use(v, p)
                if u is not None:
                    # the branch of p itself also conditions the value
                    t = p.insts[-1]
                    if t.op == "br" and len(t.succ) == 2 and t.succ[0] is not t.succ[1]:
                        u = self.refine(v, u, t.ops[0], t.succ[0] is b)
                if u is not None: r = join(r, u)
            return r
        if o == "load":
            p = x.ops[0]
            if p.kind == "global": return self.A.gl(p.name, x.ty)
            self.A.unknown.append("load at line %s" % x.line); return TOP
        if o == "store":
            p = x.ops[1]
            if p.kind == "global":
                v = self.use(x.ops[0], b)
                if v is not None: self.A.glob[p.name] = join(self.A.gl(p.name, None), v)
            else: self.A.unknown.append("store at line %s" % x.line)
            return None
        if o == "call": return self.call(x, b)
        a = [self.use(v, b) for v in x.ops]
        if any(v is None for v in a): return None
        if o in ("fadd", "fsub", "fmul", "fdiv", "fneg"): return self.fl(x, o, x.ops, a)
        if o in ("sitofp", "uitofp"): return R(a[0].lo, a[0].hi, 1.0 if a[0].lo == int(a[0].lo) else 0.0, a[0].nz) if abs(a[0].lo) < 1e300 else FTOP
        if o in ("fpext", "fptrunc", "sext", "zext", "freeze"):
            if o == "zext" and a[0].lo < 0: return R(0, 1)
            return a[0]
        if o == "trunc": return R(0, 1) if x.ty.bits == 1 else a[0]
        if o == "select": return join(a[1], a[2])
        if o in ("fcmp", "icmp"): return R(0, 1)
        if o in ("xor", "and", "or") and x.ty.k == "int" and x.ty.bits == 1: return R(0, 1)
        if o == "xor" and x.ty.k == "int": return R(-2**31, 2**31)
        if o in ("add", "sub", "mul"):
            f = {"add": lambda p, q: p + q, "sub": lambda p, q: p - q, "mul": lambda p, q: p * q}[o]
            c = [f(p, q) for p in (a[0].lo, a[0].hi) for q in ((a[1].lo, a[1].hi))]
            return R(min(c), max(c)) if all(z == z for z in c) else TOP
        if o == "srem" and a[1].lo == a[1].hi and a[1].lo > 0 and a[0].lo >= 0: return R(0, min(a[0].hi, a[1].hi - 1))
        if o == "fptosi": return R(a[0].lo, a[0].hi)
        self.A.unknown.append("%s at line %s" % (o, x.line))
        return TOP
    def eqv(self, p, q): return p.kind == q.kind and p.kind == "inst" and p.inst is q.inst
    def mul(self, x, p, q, a, b):
        if self.eqv(p, q):
            m = max(abs(a.lo), abs(a.hi)); l = 0.0 if a.lo <= 0 <= a.hi else min(abs(a.lo), abs(a.hi))
            return self.out(x, l * l, m * m, a.mnz * a.mnz, a.nz, a.nan)
        z = [s * t if s and t else 0.0 for s in (a.lo, a.hi) for t in (b.lo, b.hi)]
        return self.out(x, min(z), max(z), a.mnz * b.mnz, a.nz and b.nz and a.mnz * b.mnz > 1.5e-45, a.nan or b.nan)
    def add(self, x, a, b):
        lo, hi = a.lo + b.lo, a.hi + b.hi
        mnz = 0.0; nz = False
        if a.lo >= 0 and b.lo >= 0 or a.hi <= 0 and b.hi <= 0:
            mnz = min(a.mnz, b.mnz); nz = a.nz or b.nz
            if a.lo == a.hi == 0: mnz = b.mnz
            if b.lo == b.hi == 0: mnz = a.mnz
        elif b.lo == b.hi and b.lo != 0 and x.ty.k == "float":
            mnz = self.gap(b.lo)                  # floats next to a constant are at least this far from it
        elif a.lo == a.hi and a.lo != 0 and x.ty.k == "float": mnz = self.gap(a.lo)
        if lo == hi: return self.out(x, lo, hi, abs(lo), lo != 0, a.nan or b.nan)
        return self.out(x, lo, hi, mnz, nz, a.nan or b.nan)
    def gap(self, c):
        m, e = math.frexp(abs(c))                 # spacing of floats just below |c|
        return math.ldexp(1.0, e - 24 - (1 if m == 0.5 else 0))
    def fl(self, x, o, ops, a):
        if o == "fneg": return R(-a[0].hi, -a[0].lo, a[0].mnz, a[0].nz, a[0].nan)
        if o == "fmul": return self.mul(x, ops[0], ops[1], a[0], a[1])
        if o == "fsub":
            if self.eqv(ops[0], ops[1]): return pt(0.0)
            n = R(-a[1].hi, -a[1].lo, a[1].mnz, a[1].nz, a[1].nan)
            return self.add(x, a[0], n)
        if o == "fadd": return self.add(x, a[0], a[1])
        if o == "fdiv":
            p, q = a
            if q.zero():
                self.alarm(x, "the divisor can be zero (%r)" % q)
                return R(-INF, INF, 0, False, True)
            m = q.mnz if q.mnz else 1.5e-45
            if q.lo > 0: ql, qh = q.lo, q.hi
            elif q.hi < 0: ql, qh = q.lo, q.hi
            else: ql, qh = None, None
            if ql is not None: z = [s / t for s in (p.lo, p.hi) for t in (ql, qh)]
            else: M = max(abs(p.lo), abs(p.hi)) / m; z = [-M, M]
            big = max(abs(q.lo), abs(q.hi))
            return self.out(x, min(z), max(z), p.mnz / big if big < INF else 0.0, p.nz, p.nan or q.nan)
    def call(self, x, b):
        if x.callee.kind != "func": self.A.unknown.append("indirect call"); return TOP if x.ty.k != "void" else None
        n = x.callee.name
        if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime"): return None
        a = [self.use(v, b) for v in x.args]
        if any(v is None for v in a): return None
        if n in self.A.externs:
            r = self.A.externs[n]
            return r(x) if callable(r) else r
        if n.startswith(("llvm.fmuladd", "llvm.fma.")):
            m = self.mul(x, x.args[0], x.args[1], a[0], a[1])
            return self.add(x, m, a[2])
        g = n[:-1] if n.endswith("f") and n not in ("erf",) else n
        if n.startswith("llvm."): g = n.split(".")[1]
        if g in ("log",):
            q = a[0]
            if q.lo < 0: self.alarm(x, "the argument of the logarithm can be negative (%r)" % q); return TOP
            if q.zero(): self.alarm(x, "the argument of the logarithm can be zero (%r)" % q); return R(-INF, math.log(q.hi) if q.hi > 0 else 0)
            lo = math.log(max(q.lo, 1.5e-45)); hi = math.log(q.hi) if q.hi < INF else INF
            if q.hi <= 1.0: hi = min(hi, 0.0)
            return R(lo - abs(lo) * 1e-6, hi, 0.0, False, q.nan)
        if g == "sqrt":
            q = a[0]
            if q.lo < 0: self.alarm(x, "the argument of the square root can be negative (%r)" % q); return TOP
            return R(math.sqrt(q.lo), math.sqrt(q.hi) if q.hi < INF else INF, math.sqrt(q.mnz), q.nz, q.nan)
        if g in ("sin", "cos"): return R(-1, 1)
        if g == "fabs": return R(0.0 if a[0].lo <= 0 <= a[0].hi else min(abs(a[0].lo), abs(a[0].hi)), max(abs(a[0].lo), abs(a[0].hi)), a[0].mnz, a[0].nz, a[0].nan)
        if g == "exp": return R(math.exp(max(a[0].lo, -200)) if a[0].lo > -200 else 0.0, math.exp(a[0].hi) if a[0].hi < 700 else INF)
        f = self.A.mod.funcs.get(n)
        if f is not None and not f.decl: return self.A.func(f, a)
        self.A.unknown.append("call of %s" % n)
        return TOP if x.ty.k != "void" else None
