"""Value of a summary term at one assignment of its free symbols, and equality of two summaries.

The closed forms produced by the abstract interpreter are compared with a specification either by rewriting both
to the same term (decided for every input) or by identity testing: the two *terms* are evaluated at pseudo-random
and at special assignments.  The program is never run; only its summary is evaluated."""
import math, random, struct
from terms import *
from memory import *
import interp as _interp

class Unknown(Exception): pass
class OutOfSpec(Exception): pass

def _h(*k):
    return random.Random(repr(k)).random()

class Oracle:
    """content of untouched memory and of free float symbols"""
    MODES = ("normal", "special", "wide", "positive", "zeros")
    def __init__(self, seed, mode="normal"):
        self.seed, self.mode = seed, mode
        self.fix = {}           # (basekey, off) -> value
        self.objmode = {}       # basekey -> mode
        self.kinks = ()         # constants the terms compare with
    def flt(self, key):
        r = random.Random(repr((self.seed, key)))
        m = self.objmode.get(key[0] if isinstance(key, tuple) else key, self.mode)
        if callable(m): return m(r, key)
        if m == "special": return r.choice((0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 0.25, 3.0, 0.0))
        if m == "wide": return r.gauss(0, 1) * 10 ** r.uniform(-2, 1)
        if m == "positive": return abs(r.gauss(0, 1)) + 0.01
        if m == "kinks": return r.choice(self.kinks) if self.kinks and r.random() < 0.7 else r.choice((0.0, 1.0, r.gauss(0, 1)))
        if m == "zeros": return r.choice((0.0, 0.0, 0.0, 1.0, r.gauss(0, 1)))
        if m == "zero": return 0.0
        if m == "unit": return min(max(r.random(), 1e-3), 1 - 1e-3)
        if m == "onehot01": return float(r.random() < 0.5)
        return r.gauss(0, 1)
    def load(self, key, off, tk):
        v = self.fix.get((key, off))
        if v is not None: return v
        if key[0] == "cstr":
            t = key[1].encode("latin1") + b"\0"; z = tsize(tk)
            if off < 0 or off + z > len(t): raise OutOfSpec("read outside the string '%s'" % key[1])
            return int.from_bytes(t[off:off + z], "little", signed=True)
        if tk in ("f32", "f64"): return self.flt((key, off))
        if tk == "ptr": return ("ld", key, off), 0
        return self.int_(key, off, tk)
    def int_(self, key, off, tk):
        return random.Random(repr((self.seed, "i", key, off))).randint(0, 5)
    def symf(self, name): return self.flt((("sym", name),))
    def symi(self, name): raise Unknown("no value for " + str(name))
    def addr(self, key):
        return 4 * random.Random(repr((self.seed, "addr", key))).randint(1, 1 << 20)
    def undef(self, key, off, tk):
        r = random.Random(repr((self.seed, "undef", key, off)))
        return r.gauss(0, 1) * 1e3 if tk in ("f32", "f64") else r.randint(-1 << 30, 1 << 30) if tk != "ptr" else (("undefp", key, off), 0)
    def call(self, name, args, key, tk=None): raise Unknown("call " + str(name))
    def bsym(self, t): raise Unknown("bool " + str(t))
    def other(self, ev, t): raise Unknown(t.op)

_hole = {}
def has_hole(t):
    r = _hole.get(t)
    if r is None:
        # iterative post-order
        st = [(t, False)]
        while st:
            x, d = st.pop()
            if x in _hole: continue
            if not d:
                st.append((x, True))
                for k in kids(x):
                    if k not in _hole: st.append((k, False))
            else:
                if isinstance(x, T) and x.op == "mloop":       # the hole of its body is bound here
                    _hole[x] = any(_hole[k] for k in (x.a[1][1], x.a[1][2], x.a[2], x.a[3]))
                else: _hole[x] = (isinstance(x, T) and x.op == "mhole") or any(_hole[k] for k in kids(x))
        r = _hole[t]
    return r

INF = float("inf")
def f32(x):
    try: return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError: return INF if x > 0 else -INF

def fcall_val(n, a):
    if "#" in n:
        # an unknown function of the network (activation, loss, metric): one fixed smooth function per name
        r = random.Random(n)
        s = r.uniform(-0.4, 0.4)
        for i, v in enumerate(a):
            v = max(-1e6, min(1e6, v)) if v == v else 0.7
            s += r.uniform(0.3, 1.0) * math.sin(v * r.uniform(0.4, 1.3) + r.uniform(0, 6.28))
        if n.startswith("act#") and s < -0.8: return 0.0        # activations can be exactly zero
        return s
    try:
        x = a[0]
        if n == "exp": return math.exp(x)
        if n == "log": return math.log(x) if x > 0 else (-INF if x == 0 else math.nan)
        if n == "tanh": return math.tanh(x)
        if n == "sqrt": return math.sqrt(x) if x >= 0 else math.nan
        if n == "fabs": return abs(x)
        if n == "round":
            if x != x or abs(x) == INF: return x
            return float(math.copysign(math.floor(abs(x) + 0.5), x))
        if n == "rint": return float(round(x))
        if n == "floor": return float(math.floor(x))
        if n == "ceil": return float(math.ceil(x))
        if n == "trunc": return float(math.trunc(x))
        if n == "fmax": return a[1] if x != x else x if a[1] != a[1] else max(x, a[1])
        if n == "fmin": return a[1] if x != x else x if a[1] != a[1] else min(x, a[1])
        if n == "pow": return x ** a[1]
        if n == "log1p": return math.log1p(x)
        if n == "expm1": return math.expm1(x)
        if n == "copysign": return math.copysign(x, a[1])
        if n == "fmod": return math.fmod(x, a[1])
        if n == "cosh": return math.cosh(x)
        if n == "sinh": return math.sinh(x)
        if n == "exp2": return 2.0 ** x
        if n == "log2": return math.log2(x)
        if n == "hypot": return math.hypot(*a)
        if n == "cbrt": return math.copysign(abs(x) ** (1 / 3), x)
        if n.startswith("approx_"):
            if "rsqrt" in n: return 1 / math.sqrt(x)
            if "rcp" in n: return 1 / x
    except OverflowError: return INF
    except ValueError: return math.nan
    except ZeroDivisionError: return INF
    raise Unknown("function " + n)

class Ev:
    def __init__(self, oracle, ints=None, floats=None, single=False):
        self.o = oracle
        self.ints = ints or {}       # atom (sym / lv) -> int
        self.floats = floats or {}
        self.memo = {}
        self.steps = 0
        self.single = single
    # env: dict bv -> value ; holes kept in env under "hole"
    def ev(self, t, env=None):
        if env is None: env = {}
        if isinstance(t, T) and t.op in ("fc", "true", "false"):
            return t.a[0] if t.op == "fc" else t.op == "true"
        hole = has_hole(t)
        key = None
        if not hole:
            lv = leaves(t)
            key = (t, tuple((b, env[b]) for b in lv if b in env)) if env else t
            r = self.memo.get(key)
            if r is not None: return r
        self.steps += 1
        if self.steps > 3000000: raise Unknown("evaluation too large")
        r = self._ev(t, env)
        if key is not None: self.memo[key] = r
        return r
    def _ev(self, t, env):
        if isinstance(t, P):
            s = 0
            for mo, c in t.m:
                v = c
                for a in mo: v *= self.ev(a, env)
                s += v
            return s
        if isinstance(t, Ptr):
            b = t.base
            if b is NULLB: return ("null",), self.ev(t.off, env)
            k, o = self.pv(b, env)
            return k, o + self.ev(t.off, env)
        if isinstance(t, Vec): return tuple(self.ev(x, env) for x in t.l)
        o = t.op; a = t.a
        if t in env: return env[t]
        if o in ("sym", "lv", "bv", "phi"):
            if t in self.ints: return self.ints[t]
            if t in self.floats: return self.floats[t]
            if o == "sym": return self.sym(t)
            raise Unknown("free %s" % show(t))
        if o in ("f+", "f-", "f*", "f/", "fneg"):
            x = self.ev(a[0], env)
            if o == "fneg": return -x
            y = self.ev(a[1], env)
            try:
                r = x + y if o == "f+" else x - y if o == "f-" else x * y if o == "f*" else x / y
            except ZeroDivisionError: r = math.nan if x == 0 or x != x else math.copysign(INF, x) * math.copysign(1, y)
            except OverflowError: r = INF
            return f32(r) if self.single and r == r and abs(r) != INF else r
        if o == "ite" or o == "pite": return self.ev(a[1] if self.ev(a[0], env) else a[2], env)
        if o == "ge0": return self.ev(a[0], env) >= 0
        if o == "eq0": return self.ev(a[0], env) == 0
        if o == "not": return not self.ev(a[0], env)
        if o == "and": return self.ev(a[0], env) and self.ev(a[1], env)
        if o == "or": return self.ev(a[0], env) or self.ev(a[1], env)
        if o == "fcmp":
            x, y = self.ev(a[1], env), self.ev(a[2], env)
            un = x != x or y != y
            p = a[0]
            if p == "olt": return not un and x < y
            if p == "ole": return not un and x <= y
            if p == "oeq": return not un and x == y
            if p == "one": return not un and x != y
            if p == "ueq": return un or x == y
            if p == "ord": return not un
            if p == "uno": return un
            raise Unknown(p)
        if o == "fcall": return fcall_val(a[0], [self.ev(x, env) for x in a[1:]])
        if o == "itof": return float(self.ev(a[0], env))
        if o == "fsum":
            lo, hi = self.ev(a[2], env), self.ev(a[3], env)
            s = 0.0
            if hi - lo > 20000: raise Unknown("sum too long")
            e = dict(env)
            for i in range(lo, hi):
                e[a[0][0]] = i; s += self.ev(a[1][0], e)
            return s
        if o == "isum":
            lo, hi = self.ev(a[2], env), self.ev(a[3], env)
            s = 0; e = dict(env)
            for i in range(lo, hi):
                e[a[0][0]] = i; s += self.ev(a[1][0], e)
            return s
        if o == "rec":
            bvs, bodies, inits, Tn, idx = a[0], a[1], a[2], a[3], a[4]
            n = self.ev(Tn, env)
            s = [self.ev(x, env) for x in inits]
            if n > 20000: raise Unknown("recurrence too long")
            e = dict(env)
            for i in range(n):
                e[bvs[0]] = i
                for b, v in zip(bvs[1:], s): e[b] = v
                s = [self.ev(x, e) for x in bodies]
            return s[idx]
        if o == "trip":
            e = dict(env)
            for i in range(20000):
                e[a[0][0]] = i
                if self.ev(a[1][0], e): return i
            raise Unknown("loop does not end")
        if o == "fdiv": return self.ev(a[0], env) // a[1]
        if o == "sdiv":
            x = self.ev(a[0], env); q = abs(x) // abs(a[1]); return q if (x < 0) == (a[1] < 0) else -q
        if o == "srem":
            x = self.ev(a[0], env); return int(math.fmod(x, a[1]))
        if o == "idiv":
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if y == 0: raise Unknown("division by zero")
            q = abs(x) // abs(y); return q if (x < 0) == (y < 0) else -q
        if o == "imax": return max(self.ev(a[0], env), self.ev(a[1], env))
        if o == "imul": return self.ev(a[0], env) * self.ev(a[1], env)
        if o == "iop":
            x, y, bits = self.ev(a[1], env), self.ev(a[2], env), a[3]
            m = (1 << bits) - 1
            k = a[0]
            ux, uy = x & m, y & m
            if k in ("urem", "srem"):
                if y == 0: raise Unknown("division by zero")
                return ux % uy if k == "urem" else int(math.fmod(x, y))
            r = {"and": ux & uy, "or": ux | uy, "xor": ux ^ uy, "shl": (ux << min(uy, 64)) & m, "lshr": ux >> min(uy, 64)}.get(k)
            if k == "ashr": return x >> uy
            if r is None: raise Unknown(k)
            return r - (1 << bits) if r >> (bits - 1) else r
        if o == "ftoi":
            x = self.ev(a[0], env)
            if x != x or abs(x) > 2 ** 31: return -2 ** 31
            return int(x)
        if o == "bits2f": return struct.unpack("<f", struct.pack("<I", self.ev(a[0], env) & 0xffffffff))[0]
        if o == "f2bits": return struct.unpack("<i", struct.pack("<f", f32(self.ev(a[0], env))))[0]
        if o == "zext8": return self.ev(a[0], env) & 0xff
        if o == "zext16": return self.ev(a[0], env) & 0xffff
        if o == "tr16":
            v = self.ev(a[0], env) & 0xffff
            return v - 65536 if v >= 32768 else v
        if o == "tr8":
            x = self.ev(a[0], env) & 0xff; return x - 256 if x > 127 else x
        if o == "nn": return self.ev(a[0], env)
        if o == "ld":
            k, off = self.pv(a[0], env)
            return self.o.load(k, off + self.ev(a[1], env), a[2])
        if o == "ldm": return self.mread(a[0], self.ev(a[1], env), a[2], env)
        if o == "csel": 
            i = self.ev(a[0], env)
            if not 0 <= i < len(a[1]): raise OutOfSpec("constant table index %d" % i)
            return self.ev(a[1][i], env)
        if o == "addr": return self.o.addr(self.pv(a[0], env)[0])
        if o == "bool" and isinstance(a[0], T): return bool(self.ev(a[0], env))
        if o in ("undeff", "undefi"): return self.o.undef(("undefv",), t.id, "f32" if o == "undeff" else "i32")
        if o == "peq":
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            return x == y
        if o == "call": return self.o.call(a[0], [self.ev(x, env) for x in a[1]], a[2])
        return self.o.other(self, t, env) if self.o.other.__code__.co_argcount > 3 else self.o.other(self, t)
    def sym(self, t):
        return self.o.symf(t.a[0])
    def pv(self, b, env):
        """pointer value (object key, offset) of a base term"""
        if isinstance(b, Ptr): return self.ev(b, env)
        o = b.op
        if o in ("sym", "func", "global", "cstr"): return (o, b.a[0]), 0
        if b in env: return env[b]
        if o in ("obj", "alloca"): return (o, b.id), 0
        if o == "null": return ("null",), 0
        r = self.ev(b, env)
        if not isinstance(r, tuple) or len(r) != 2: raise Unknown("pointer %s" % show(b, 3))
        return r

    # ---- memory read at a concrete offset
    def mread(self, ch, off, tk, env):
        if ch.op in ("mseg", "mloop", "mite", "mstore") and not has_hole(ch):
            lv = leaves(ch)
            key = (ch, off, tk, tuple((b, env[b]) for b in lv if b in env))
            r = self.memo.get(key)
            if r is None: r = self.memo[key] = self._mread(ch, off, tk, env)
            return r
        return self._mread(ch, off, tk, env)
    def _mread(self, ch, off, tk, env):
        if isvec(tk):
            s = tsize(tk[2])
            return tuple(self.mread(ch, off + s * i, tk[2], env) for i in range(tk[1]))
        sz = tsize(tk)
        while True:
            o = ch.op; a = ch.a
            if o == "mstore":
                so = self.ev(a[1], env); stk = a[2]; ssz = tsize(stk)
                d = off - so
                if 0 <= d and d + sz <= ssz:
                    if isvec(stk):
                        es = tsize(stk[2])
                        if es != sz or d % es: raise Unknown("partial vector element")
                        return self.cv(self.ev(a[3].l[d // es], env), stk[2], tk)
                    if ssz == sz: return self.cv(self.ev(a[3], env), stk, tk)
                    raise Unknown("partial read of a store")
                if d < ssz and d > -sz: raise Unknown("overlapping store")
                ch = a[0]; continue
            if o == "mseg":
                lo, cnt = self.ev(a[3], env), self.ev(a[4], env); es = a[5]
                d = off - lo
                if 0 <= d < cnt * es:
                    if d % es or sz != es: raise Unknown("partial segment read")
                    e = dict(env); e[a[0][0]] = d // es
                    return self.cv(self.ev(a[1][0], e), a[6], tk)
                ch = a[2]; continue
            if o == "mite":
                ch = a[1] if self.ev(a[0], env) else a[2]; continue
            if o == "mfill":
                lo, ln = self.ev(a[1], env), self.ev(a[2], env)
                if lo <= off and off + sz <= lo + ln:
                    b = self.ev(a[3], env) & 0xff
                    raw = bytes([b]) * sz
                    if tk == "f32": return struct.unpack("<f", raw)[0]
                    if tk == "f64": return struct.unpack("<d", raw)[0]
                    if tk == "ptr": return ("null",), int.from_bytes(raw, "little")
                    return int.from_bytes(raw, "little", signed=True)
                ch = a[0]; continue
            if o == "mcopy":
                lo, ln = self.ev(a[1], env), self.ev(a[2], env)
                if lo <= off and off + sz <= lo + ln:
                    off = self.ev(a[4], env) + off - lo; ch = a[3]; continue
                ch = a[0]; continue
            if o == "mloop":
                bv = a[0][0]; body, lo, hi = a[1]
                n = self.ev(a[3], env)
                return self.mloop_read(ch, n, off, tk, env)
            if o == "mhole":
                return env["hole"][0](off, tk)
            if o == "mpart": ch = a[0]; continue
            if o == "mconst":
                vals, es, stk = a
                if off % es or es != sz or not 0 <= off // es < len(vals): raise OutOfSpec("constant array offset %d" % off)
                return self.cv(self.ev(vals[off // es], env), stk, tk)
            if o == "minit":
                k, o0 = self.pv(a[0], env)
                return self.o.load(k, o0 + off, tk)
            if o == "mundef":
                return self.o.undef((a[0].op, a[0].id), off, tk)
            raise Unknown("memory " + o)
    def mloop_read(self, node, n, off, tk, env):
        a = node.a; bv = a[0][0]; body, lo, hi = a[1]
        top, bot = n - 1, 0
        l1, l2 = plin(lo, bv), plin(hi, bv)
        if l1 is not None and l2 is not None and bv not in leaves(l1[0]) and bv not in leaves(l2[0]):
            s1, s2 = self.ev(l1[0], env), self.ev(l2[0], env)
            if s1 == s2 and s1 != 0:
                b1, b2 = self.ev(l1[1], env), self.ev(l2[1], env)
                if s1 > 0: top, bot = min(top, (off - b1) // s1), max(0, (off - b2) // s1 + 1)
                else: bot, top = max(0, -((off - b1) // -s1)), min(top, -((off - b2) // -s1) - 1)
                if s1 < 0: top, bot = n - 1, 0
        for t in range(top, bot - 1, -1):
            e = dict(env); e[bv] = t
            if self.ev(lo, e) <= off < self.ev(hi, e):
                e["hole"] = ((lambda o2, tk2, t=t: self.mloop_read(node, t, o2, tk2, env)),)
                return self.mread(body, off, tk, e)
        return self.mread(a[2], off, tk, env)
    def cv(self, v, s, d):
        if s == d: return v
        if s == "f32" and d == "i32": return struct.unpack("<i", struct.pack("<f", f32(v)))[0]
        if s == "i32" and d == "f32": return struct.unpack("<f", struct.pack("<i", v))[0]
        if tsize(s) == tsize(d) and s[0] == "i" and d[0] == "i": return v
        if s in ("ptr", "i64") and d in ("ptr", "i64"): return v
        raise Unknown("conversion %s->%s" % (s, d))

def close_to(x, y, rel=2e-4, ab=2e-6, scale=0.0):
    if isinstance(x, bool) or isinstance(y, bool): return bool(x) == bool(y)
    if isinstance(x, tuple) or isinstance(y, tuple): return x == y
    if x != x or y != y: return x != x and y != y
    if x == y: return True
    if abs(x) == INF or abs(y) == INF: return False
    return abs(x - y) <= ab + rel * max(abs(x), abs(y), scale)

# ---------------------------------------------------------------- sampling of integer symbols under facts
def sample_ints(atoms, facts, rng, hi=40, tries=400):
    """an assignment of the given atoms (sym/lv) satisfying the polynomial facts (>= 0), or None"""
    atoms = sorted(atoms)
    class Q(Oracle):
        def symi(self, n): raise Unknown(n)
    for k in range(tries):
        top = rng.choice((3, 10, hi))
        asg = {a: rng.randint(0, top) for a in atoms}
        try:
            e = Ev(Oracle(rng.random()), asg)
            if all(e.ev(f) >= 0 for f in facts): return asg
        except Unknown: return None
    return None

def _int_leaves(t):
    """symbols used as integers"""
    out = set()
    for s in subterms(t):
        if isinstance(s, P):
            for mo, _ in s.m:
                for a in mo:
                    if a.op in ("sym", "lv"): out.add(a)
    return out

_same_memo = {}
def same(x, y, ctx, n=24):
    """approximate equality of two element functions under the facts of ctx (identity testing)"""
    if x is y: return True
    k = (x, y, ctx.key)
    r = _same_memo.get(k)
    if r is None: r = _same_memo[k] = _same(x, y, ctx, n)
    return r
def _same(x, y, ctx, n):
    if type(x) is not type(y): return False
    ks = {s.a[1] for t in (x, y) for s in subterms(t) if isinstance(s, T) and s.op == "fdiv"}
    qs = {a for t in (x, y) for s in subterms(t) if isinstance(s, T) and s.op == "fdiv" for a in leaves(s.a[0]) if a.op == "lv"}
    if len(qs) == 1 and ks and max(ks) <= 64 and all(max(ks) % k == 0 for k in ks):
        q, K = next(iter(qs)), max(ks)
        t = mk("lv", "blk", ())
        for r in range(K):
            mp = {q: padd(pscale(A(t), K), C(r))}
            xs, ys = subst(x, mp), subst(y, mp)
            if xs is ys: continue
            facts = [subst(f, mp) for f in ctx.facts]
            if not _same1(xs, ys, facts, 12, K): return False
        return True
    return _same1(x, y, list(ctx.facts), 2 * n, 1)
def _same1(x, y, facts, n, K):
    rng = random.Random(12345)
    at = _int_leaves(x) | _int_leaves(y)
    for f in facts: at |= {a for a in leaves(f) if a.op in ("sym", "lv")}
    good = tried = 0
    cs = sorted({c.a[0] for t in (x, y) for s in subterms(t) if isinstance(s, T) and s.op == "fcmp" for c in s.a[1:] if isinstance(c, T) and c.op == "fc" and abs(c.a[0]) < 1e6})
    for i in range(n):
        asg = sample_ints(at, facts, rng)
        if asg is None: return K > 1 and good == tried      # an empty residue class
        tried += 1
        o = Oracle((i, "same"), ("normal", "special", "wide", "zeros", "kinks", "special")[i % 6])
        o.kinks = cs
        e = Ev(o, asg)
        try:
            if not close_to(e.ev(x), e.ev(y)): return False
        except Unknown: return False
        except OutOfSpec: return False
        good += 1
    return good == n
_interp.SAME = same
