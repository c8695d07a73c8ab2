"""Hash-consed symbolic values of the abstract interpreter.

Integers   : P    - polynomials with integer coefficients over atoms
Pointers   : Ptr  - (base term, byte offset polynomial)
Vectors    : Vec  - tuple of lane values
Everything else : T(op, *args)

Binder terms (sums, recurrences, loop trip counts, memory segments) have a[0] = tuple of bound variables and
a[1] = tuple of bodies in their scope; the remaining arguments are outside the scope.
"""
from fractions import Fraction
from math import gcd
import sys
sys.setrecursionlimit(100000)

_memo, _atoms = {}, {}
_ctr = [0]

class Base:
    __slots__ = ("id", "_free", "_h")
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.id < o.id
    def __repr__(self): return show(self)

def _new(o):
    _ctr[0] += 1; o.id = _ctr[0]; o._free = None; o._h = None
    return o

class T(Base):
    __slots__ = ("op", "a")
class P(Base):
    """polynomial; m: sorted tuple of (mono, coef); mono = tuple of atoms sorted by id"""
    __slots__ = ("m",)
    def const(self):
        if not self.m: return 0
        if len(self.m) == 1 and self.m[0][0] == (): return self.m[0][1]
        return None
    def atoms(self):
        s = _atoms.get(self)
        if s is None:
            s = set()
            for mo, _ in self.m: s.update(mo)
            s = _atoms[self] = frozenset(s)
        return s
    def coef(self, mono):
        for mo, c in self.m:
            if mo == mono: return c
        return 0
class Ptr(Base):
    __slots__ = ("base", "off")
class Vec(Base):
    __slots__ = ("l",)

def mk(op, *a):
    key = (op, a)
    t = _memo.get(key)
    if t is None:
        t = _new(T()); t.op = op; t.a = a
        _memo[key] = t
    return t

_pm = {}
def _mkP(d):
    m = tuple(sorted(((mo, c) for mo, c in d.items() if c != 0), key=lambda x: [t.id for t in x[0]]))
    p = _pm.get(m)
    if p is None:
        p = _new(P()); p.m = m
        _pm[m] = p
    return p

def C(c): return _mkP({(): c})
ZERO, ONE = C(0), C(1)
def A(atom):
    if isinstance(atom, P): return atom
    return _mkP({(atom,): 1})
def sym(name): return mk("sym", name)
def isym(name): return A(sym(name))

def padd(a, b, k=1):
    d = dict(a.m)
    for mo, c in b.m: d[mo] = d.get(mo, 0) + k * c
    return _mkP(d)
def psub(a, b): return padd(a, b, -1)
def pscale(a, k):
    return _mkP({mo: c * k for mo, c in a.m})
def pmul(a, b):
    if len(a.m) * len(b.m) > 400: return A(mk("imul", a, b))
    d = {}
    for m1, c1 in a.m:
        for m2, c2 in b.m:
            mo = tuple(sorted(m1 + m2, key=lambda t: t.id))
            d[mo] = d.get(mo, 0) + c1 * c2
    return _mkP(d)
def pdiv_exact(a, k):
    """a/k if all coefficients divisible else None"""
    d = {}
    for mo, c in a.m:
        if c % k: return None
        d[mo] = c // k
    return _mkP(d)
def plin(p, atom):
    """(coefficient polynomial of atom, rest) if p is linear in atom else None"""
    co, rest = {}, {}
    for mo, c in p.m:
        n = mo.count(atom)
        if n == 0:
            for x in mo:
                if occurs(x, atom): return None
            rest[mo] = c
        elif n == 1:
            r = tuple(x for x in mo if x is not atom)
            for x in r:
                if occurs(x, atom): return None
            co[r] = co.get(r, 0) + c
        else: return None
    return _mkP(co), _mkP(rest)
def pdivmod(p, q):
    """polynomial division of p by the polynomial q with respect to q's leading (highest) monomial: p = k*q + r"""
    if q.const() is not None:
        c = q.const()
        k, r = {}, {}
        for mo, co in p.m:
            if mo == (): k[mo] = co // c; r[mo] = co % c
            elif co % c == 0: k[mo] = co // c
            else: r[mo] = co
        return _mkP(k), _mkP(r)
    lead = max((mo for mo, _ in q.m if mo), key=lambda mo: (len(mo), [t.id for t in mo]))
    lc = q.coef(lead)
    k = ZERO; r = p
    for _ in range(20):
        hit = None
        for mo, c in r.m:
            rest = list(mo); ok = True
            for x in lead:
                if x in rest: rest.remove(x)
                else: ok = False; break
            if ok and c % lc == 0:
                hit = (_mkP({tuple(rest): c // lc})); break
        if hit is None: break
        k = padd(k, hit); r = psub(r, pmul(hit, q))
    return k, r

_ptrm = {}
def mkptr(base, off=ZERO):
    if isinstance(base, Ptr): return mkptr(base.base, padd(base.off, off))
    if isinstance(base, T) and base.op == "pite":
        return ite(base.a[0], mkptr(base.a[1], off), mkptr(base.a[2], off))
    k = (base, off)
    p = _ptrm.get(k)
    if p is None:
        p = _new(Ptr()); p.base, p.off = base, off
        _ptrm[k] = p
    return p
NULLB = mk("null")
NULL = mkptr(NULLB)

_vm = {}
def mkvec(l):
    l = tuple(l)
    v = _vm.get(l)
    if v is None:
        v = _new(Vec()); v.l = l
        _vm[l] = v
    return v

# ------------------------------------------------------------------ booleans
TRUE, FALSE = mk("true"), mk("false")

def _ite_atom(p):
    """if p has a single atom and that is an ite with constant arms: (cond, p|then, p|else)"""
    if len(p.m) <= 2:
        ats = p.atoms()
        if len(ats) == 1:
            at = next(iter(ats))
            if at.op == "ite" and isinstance(at.a[1], P) and at.a[1].const() is not None and at.a[2].const() is not None:
                v = [sum(c * (x.const() ** len(mo)) for mo, c in p.m) for x in at.a[1:]]
                return at.a[0], v[0], v[1]
    return None
def bconst(b): return TRUE if b else FALSE
def bite(c, x, y):
    return bor(band(c, x), band(bnot(c), y)) if x is not y else x

def ge0(p):
    """p >= 0 over the integers"""
    c = p.const()
    if c is not None: return TRUE if c >= 0 else FALSE
    z = _ite_atom(p)
    if z: return bite(z[0], bconst(z[1] >= 0), bconst(z[2] >= 0))
    g = 0
    for mo, c in p.m:
        if mo != (): g = gcd(g, int(abs(c)))
    if g > 1:
        p = _mkP({mo: (c // g) for mo, c in p.m})   # floor of the constant is sound for >=0
    return mk("ge0", p)
def eq0(p):
    c = p.const()
    if c is not None: return TRUE if c == 0 else FALSE
    z = _ite_atom(p)
    if z: return bite(z[0], bconst(z[1] == 0), bconst(z[2] == 0))
    g = 0
    for mo, c in p.m: g = gcd(g, int(abs(c)))
    lead = p.m[-1][1]
    if g > 1 or lead < 0:
        g = max(g, 1) * (-1 if lead < 0 else 1)
        p = _mkP({mo: c // g for mo, c in p.m})
    return mk("eq0", p)
def bnot(b):
    if b is TRUE: return FALSE
    if b is FALSE: return TRUE
    if b.op == "not": return b.a[0]
    if b.op == "ge0": return ge0(psub(C(-1), b.a[0]))
    if b.op == "and": return bor(bnot(b.a[0]), bnot(b.a[1]))
    if b.op == "or": return band(bnot(b.a[0]), bnot(b.a[1]))
    return mk("not", b)
def _flat(b, op):
    if b.op == op: return _flat(b.a[0], op) | _flat(b.a[1], op)
    return {b}
def band(a, b):
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is b: return a
    xs = _flat(a, "and") | _flat(b, "and")
    if len(xs) < 40:
        for x in xs:
            if bnot(x) in xs: return FALSE
        # unit resolution inside: x and (not x or y)
        for x in list(xs):
            if x.op == "or":
                ys = _flat(x, "or")
                if ys & xs: xs.discard(x); continue
                red = {y for y in ys if bnot(y) not in xs}
                if len(red) < len(ys):
                    xs.discard(x)
                    r = FALSE
                    for y in sorted(red): r = bor(r, y)
                    if r is FALSE: return FALSE
                    if r is not TRUE: xs |= _flat(r, "and")
    r = None
    for x in sorted(xs): r = x if r is None else mk("and", r, x)
    return r if r is not None else TRUE
def bor(a, b):
    if a is TRUE or b is TRUE: return TRUE
    if a is FALSE: return b
    if b is FALSE: return a
    if a is b: return a
    xs = _flat(a, "or") | _flat(b, "or")
    if len(xs) < 40:
        for x in xs:
            if bnot(x) in xs: return TRUE
        for x in list(xs):
            if x.op == "and":
                ys = _flat(x, "and")
                if ys & xs: xs.discard(x); continue
                red = {y for y in ys if bnot(y) not in xs}
                if len(red) < len(ys):
                    xs.discard(x)
                    r = TRUE
                    for y in sorted(red): r = band(r, y)
                    if r is TRUE: return TRUE
                    if r is not FALSE: xs |= _flat(r, "or")
        # (x and z) or (not x and z)  ->  z
        al = [x for x in xs if x.op == "and"]
        for i in range(len(al)):
            for j in range(i):
                p, q = _flat(al[i], "and"), _flat(al[j], "and")
                if len(p) == len(q):
                    d1, d2 = p - q, q - p
                    if len(d1) == 1 and bnot(next(iter(d1))) is next(iter(d2)):
                        rest = TRUE
                        for y in sorted(p & q): rest = band(rest, y)
                        out = rest
                        for x in sorted(xs - {al[i], al[j]}): out = bor(out, x)
                        return out
    r = None
    for x in sorted(xs): r = x if r is None else mk("or", r, x)
    return r if r is not None else FALSE

def fc(x): return mk("fc", float(x))

def ite(c, x, y):
    if c is TRUE: return x
    if c is FALSE: return y
    if x is y: return x
    if c.op == "not": return ite(c.a[0], y, x)
    if isinstance(x, Vec) and isinstance(y, Vec):
        return mkvec(ite(c, p, q) for p, q in zip(x.l, y.l))
    if isinstance(x, P) and isinstance(y, P):
        return padd(y, A(mk("ite", c, psub(x, y), ZERO)))
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        if x.base is y.base: return mkptr(x.base, ite(c, x.off, y.off))
        return mk("pite", c, x, y)
    if (isinstance(x, Ptr) or isinstance(y, Ptr)) : return mk("pite", c, x, y)
    if is_bool(x) and is_bool(y):
        return bor(band(c, x), band(bnot(c), y))
    # same condition nested
    if isinstance(x, T) and x.op == "ite" and x.a[0] is c: x = x.a[1]
    if isinstance(y, T) and y.op == "ite" and y.a[0] is c: y = y.a[2]
    if x is y: return x
    return mk("ite", c, x, y)

BOOLOPS = {"true", "false", "ge0", "eq0", "not", "and", "or", "fcmp", "bsym", "peq", "plt", "bool"}
def is_bool(x): return isinstance(x, T) and x.op in BOOLOPS

# ------------------------------------------------------------------ traversal
TERM = Base
BINDERS = {"fsum", "isum", "rec", "trip", "mseg", "mloop"}

def _tk(x):
    for y in x:
        if isinstance(y, Base): yield y
        elif isinstance(y, tuple): yield from _tk(y)

def kids(t):
    if isinstance(t, P):
        for mo, _ in t.m: yield from mo
    elif isinstance(t, Ptr):
        yield t.base; yield t.off
    elif isinstance(t, Vec):
        yield from t.l
    elif isinstance(t, T):
        yield from _tk(t.a)

_E = frozenset()
def _walk(t):
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if x._free is not None: continue
        if not done:
            stack.append((x, True))
            for k in kids(x):
                if k._free is None: stack.append((k, False))
        else:
            h = 0
            if isinstance(x, T) and x.op in ("sym", "lv", "bv", "phi"):
                s = frozenset((x,)); h = x.a[0] if x.op == "bv" else 0
            else:
                s = set()
                if isinstance(x, T) and x.op in BINDERS:
                    for k in _tk(x.a[1]): s |= k._free
                    s -= set(x.a[0])
                    for k in _tk(x.a[2:]): s |= k._free
                else:
                    for k in kids(x): s |= k._free
                for k in kids(x): h = max(h, k._h)
                s = frozenset(s) if s else _E
            x._free, x._h = s, h
def leaves(t):
    """free sym / loop-variable / bound-variable atoms of t"""
    if t._free is None: _walk(t)
    return t._free
def height(t):
    if t._free is None: _walk(t)
    return t._h
def occurs(t, atom): return atom in leaves(t)

def subterms(t, memo=None):
    """every distinct subterm (including under binders)"""
    seen = set() if memo is None else memo
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        yield x
        st.extend(kids(x))

_rebuild = {}
def register(op, fn): _rebuild[op] = fn
def rebuild(op, args):
    fn = _rebuild.get(op)
    return fn(*args) if fn else mk(op, *args)

def subst(t, mp, memo=None):
    """simultaneous capture-free substitution of atoms/terms (T) by values"""
    if memo is None: memo = {}
    keys = frozenset(mp)
    lk = frozenset(k for k in keys if k.op in ("sym", "lv", "bv", "phi"))
    general = len(lk) != len(keys)
    gl = None
    def go(x):
        if isinstance(x, tuple): return tuple(go(y) if isinstance(y, (Base, tuple)) else y for y in x)
        r = memo.get(x)
        if r is not None: return r
        if isinstance(x, T) and x in mp:
            r = mp[x]
        elif not general and not (leaves(x) & lk):
            r = x
        elif isinstance(x, P):
            r = ZERO
            for mo, c in x.m:
                p = C(c)
                for at in mo:
                    v = go(at)
                    p = pmul(p, v if isinstance(v, P) else A(v))
                r = padd(r, p)
        elif isinstance(x, Ptr):
            r = mkptr(go(x.base), go(x.off))
        elif isinstance(x, Vec):
            r = mkvec(go(y) for y in x.l)
        elif x.op in BINDERS:
            sh = set(x.a[0]) & keys
            if sh:
                mp2 = {k: v for k, v in mp.items() if k not in sh}
                bodies = tuple(subst(y, mp2) if isinstance(y, Base) else y for y in x.a[1]) if mp2 else x.a[1]
            else:
                bodies = go(x.a[1])
            args = [go(y) if isinstance(y, (Base, tuple)) else y for y in x.a[2:]]
            r = rebuild(x.op, [x.a[0], bodies] + args)
        else:
            args = [go(y) if isinstance(y, (Base, tuple)) else y for y in x.a]
            r = rebuild(x.op, args) if any(p is not q for p, q in zip(args, x.a)) else x
        memo[x] = r
        return r
    return go(t)

def close(lvs, bodies):
    """bind the atoms lvs in bodies: (bound variables, bodies)"""
    h = 1 + max([height(b) for b in bodies] + [0])
    bvs = tuple(mk("bv", h, i) for i in range(len(lvs)))
    mp = {l: (A(b)) for l, b in zip(lvs, bvs)}
    return bvs, tuple(_subst_atoms(b, dict(zip(lvs, bvs))) for b in bodies)
def _subst_atoms(b, mp):
    return subst(b, mp)
def open1(node, i, val):
    """body i of a one-variable binder with the bound variable replaced by val (P)"""
    return subst(node.a[1][i], {node.a[0][0]: val})

register("ite", ite); register("pite", ite)
register("ge0", ge0); register("eq0", eq0); register("not", bnot); register("and", band); register("or", bor)

# ------------------------------------------------------------------ integer helper atoms
def fdiv(p, k):
    """floor(p/k), k positive constant"""
    if k == 1: return p
    q, r = {}, {}
    for mo, co in p.m:
        q[mo] = co // k if mo == () or co % k == 0 else 0
        rr = co - q[mo] * k
        if rr: r[mo] = rr
    rp = _mkP(r)
    if rp.const() is not None:
        return padd(_mkP(q), C(rp.const() // k))
    return padd(_mkP(q), A(mk("fdiv", rp, k)))
register("fdiv", fdiv)
def pmod(p, k): return psub(p, pscale(fdiv(p, k), k))
def imax(a, b):
    d = psub(a, b).const()
    if d is not None: return a if d >= 0 else b
    if a.id > b.id: a, b = b, a
    return A(mk("imax", a, b))
register("imax", imax)
def isum(bvs, bodies, lo, hi):
    b = bodies[0]
    if not (leaves(b) & set(bvs)): return pmul(b, psub(hi, lo))
    n = psub(hi, lo).const()
    if n is not None and n <= 0: return ZERO
    if n is not None and n <= 3:
        r = ZERO
        for i in range(n): r = padd(r, subst(b, {bvs[0]: padd(lo, C(i))}))
        return r
    return A(mk("isum", bvs, bodies, lo, hi))
register("isum", isum)

# ------------------------------------------------------------------ floats
def fop(op, *a):
    if all(isinstance(x, T) and x.op == "fc" for x in a):
        v = [x.a[0] for x in a]
        try:
            if op == "f+": return fc(v[0] + v[1])
            if op == "f-": return fc(v[0] - v[1])
            if op == "f*": return fc(v[0] * v[1])
            if op == "f/" and v[1] != 0: return fc(v[0] / v[1])
            if op == "fneg": return fc(-v[0])
        except OverflowError: pass
    if op == "f+":
        x, y = a
        if x.op == "fc" and x.a[0] == 0: return y
        if y.op == "fc" and y.a[0] == 0: return x
        if x.id > y.id: x, y = y, x
        return mk("f+", x, y)
    if op == "f-":
        x, y = a
        if y.op == "fc" and y.a[0] == 0: return x
        return mk("f-", x, y)
    if op == "f*":
        x, y = a
        if x.op == "fc" and x.a[0] == 1: return y
        if y.op == "fc" and y.a[0] == 1: return x
        if x.id > y.id: x, y = y, x
        return mk("f*", x, y)
    if op == "f/" and a[1].op == "fc" and a[1].a[0] == 1: return a[0]
    if op == "fneg" and a[0].op == "fneg": return a[0].a[0]
    return mk(op, *a)
for _o in ("f+", "f-", "f*", "f/", "fneg"):
    register(_o, (lambda o: lambda *a: fop(o, *a))(_o))
def fcall(name, *a): return mk("fcall", name, *a)
def itof(p):
    c = p.const()
    return fc(c) if c is not None else mk("itof", p)
register("itof", itof)
def fsum(bvs, bodies, lo, hi):
    b = bodies[0]
    n = psub(hi, lo).const()
    if n is not None and n <= 0: return fc(0)
    if n is not None and n <= 3:
        r = fc(0)
        for i in range(n): r = fop("f+", r, subst(b, {bvs[0]: padd(lo, C(i))}))
        return r
    if b.op == "fc" and b.a[0] == 0: return fc(0)
    return mk("fsum", bvs, bodies, lo, hi)
register("fsum", fsum)
def mk_fsum(lv, body, lo, hi):
    bvs, bd = close((lv,), (body,))
    return fsum(bvs, bd, lo, hi)
def mk_isum(lv, body, lo, hi):
    bvs, bd = close((lv,), (body,))
    return isum(bvs, bd, lo, hi)
PRED_SWAP = {"ogt": "olt", "oge": "ole", "ugt": "ult", "uge": "ule"}
def fcmp(pred, a, b):
    if pred in PRED_SWAP: return fcmp(PRED_SWAP[pred], b, a)
    if pred in ("oeq", "one", "ueq", "une") and a.id > b.id: a, b = b, a
    if pred == "une": return bnot(fcmp("oeq", a, b))
    if pred == "ult": return bnot(fcmp("ole", b, a))
    if pred == "ule": return bnot(fcmp("olt", b, a))
    if pred == "true": return TRUE
    if pred == "false": return FALSE
    if a.op == "fc" and b.op == "fc":
        x, y = a.a[0], b.a[0]
        r = {"oeq": x == y, "olt": x < y, "ole": x <= y, "one": x != y}.get(pred)
        if r is not None: return bconst(r)
    return mk("fcmp", pred, a, b)
register("fcmp", fcmp)

# ------------------------------------------------------------------ printing
def show(t, depth=7):
    if depth <= 0: return "..."
    d = depth - 1
    if isinstance(t, P):
        if not t.m: return "0"
        s = []
        for mo, c in t.m:
            body = "*".join(show(x, d) for x in mo)
            s.append(("%s" % c if not body else body if c == 1 else "-" + body if c == -1 else "%s*%s" % (c, body)))
        return "+".join(s).replace("+-", "-")
    if isinstance(t, Ptr): return "&%s[%s]" % (show(t.base, d), show(t.off, d))
    if isinstance(t, Vec): return "<%s,..x%d>" % (show(t.l[0], d), len(t.l))
    if isinstance(t, tuple): return "(" + ",".join(show(y, d) if isinstance(y, (Base, tuple)) else str(y) for y in t[:6]) + ")"
    if isinstance(t, T):
        o = t.op
        if o == "sym": return str(t.a[0])
        if o in ("lv", "phi"): return "%s" % (t.a[0],)
        if o == "bv": return "b%d%s" % (t.a[0], "'" * t.a[1])
        if o == "fc": return "%g" % t.a[0]
        if o == "ge0": return "(%s>=0)" % show(t.a[0], d)
        if o == "eq0": return "(%s==0)" % show(t.a[0], d)
        if o in ("f+", "f-", "f*", "f/"): return "(%s %s %s)" % (show(t.a[0], d), o[1], show(t.a[1], d))
        if o == "ite": return "(%s ? %s : %s)" % tuple(show(x, d) for x in t.a)
        if o in ("ld",): return "%s[%s]" % (show(t.a[0], d), show(t.a[1], d))
        if o == "obj": return "obj@%s" % (t.a[0],)
        return "%s%s" % (o, show(t.a, depth))
    return str(t)
