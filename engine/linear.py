"""Entailment in the polyhedral domain: does a set of linear inequalities imply p >= 0 ?

Monomials of the polynomials are the dimensions; the test minimises p over the polyhedron with an exact
rational simplex (no floating point, no external solver)."""
from fractions import Fraction as F
from terms import *
from terms import _mkP
from math import gcd

def _simplex_min(obj, cons):
    """min obj.x + c  s.t. each con: coef.x + c0 >= 0, x free.  Uses the dual via Farkas:
    max over y>=0 of -(y.c0) with sum y*coef = obj  -> min obj = max( -sum y*c0 ), solved by a two-phase primal simplex
    (equalities, y >= 0) over sparse rows of integers, each scaled by a positive factor."""
    cols = {}
    for i, (c, _) in enumerate(cons):
        for v, a in c.items():
            if a: cols.setdefault(v, []).append((i, a))
    for v in obj: cols.setdefault(v, [])
    vars_ = sorted(cols, key=lambda t: tuple(x.id for x in t))
    n = len(cons)
    rows, rhs, basis = [], [], []
    for v in vars_:
        b = obj.get(v, 0)
        r = dict(cols[v])
        d = 1
        for x in list(r.values()) + [b]:
            if isinstance(x, F) and x.denominator != 1: d = d * x.denominator // gcd(d, x.denominator)
        r = {k: int(x * d) for k, x in r.items()}; b = int(b * d)
        if b < 0: r = {k: -x for k, x in r.items()}; b = -b
        rows.append(r); rhs.append(b); basis.append(-1)
    m = len(rows)
    def norm(r, b):
        g = b if b >= 0 else -b
        for x in r.values():
            g = gcd(g, x)
            if g == 1: return r, b
        if g > 1: return {k: x // g for k, x in r.items()}, b // g
        return r, b
    def elim(r, b, e, pr, pb):
        """r := r * p - f * pr  (p > 0)"""
        f = r.get(e, 0)
        if not f: return r, b
        p = pr[e]
        g = gcd(f, p)
        f //= g; p //= g
        if p < 0: p, f = -p, -f
        o = {k: x * p for k, x in r.items()} if p != 1 else dict(r)
        for k, y in pr.items():
            x = o.get(k, 0) - f * y
            if x: o[k] = x
            else: o.pop(k, None)
        return norm(o, b * p - f * pb)
    def pivot(z, z0, limit=400):
        it = 0
        while True:
            it += 1
            if it > limit: return "limit", z, z0
            e = min((k for k, x in z.items() if x > 0 and k >= 0), default=-1)
            if e < 0: return "opt", z, z0
            lv, bn, bd = -1, 0, 1
            for j in range(len(rows)):
                a = rows[j].get(e, 0)
                if a > 0:
                    q = rhs[j] * bd - bn * a
                    if lv < 0 or q < 0 or (q == 0 and (basis[j] if basis[j] >= 0 else n + j) < (basis[lv] if basis[lv] >= 0 else n + lv)):
                        lv, bn, bd = j, rhs[j], a
            if lv < 0: return "unb", z, z0
            pr, pb = rows[lv], rhs[lv]
            for j in range(len(rows)):
                if j != lv: rows[j], rhs[j] = elim(rows[j], rhs[j], e, pr, pb)
            z, z0 = elim(z, z0, e, pr, pb)
            basis[lv] = e
    # phase 1: maximise -(sum of the artificials): reduced costs are the column sums
    z, z0 = {}, 0
    for j in range(m):
        for k, x in rows[j].items(): z[k] = z.get(k, 0) + x
        z0 += rhs[j]
    st, z, z0 = pivot({k: x for k, x in z.items() if x}, z0)
    if st == "limit": return None
    if any(basis[j] < 0 and rhs[j] != 0 for j in range(len(rows))): return None      # dual infeasible: primal unbounded
    # drive degenerate artificials out of the basis; rows without a real column are redundant
    for j in range(len(rows) - 1, -1, -1):
        if basis[j] >= 0: continue
        if not rows[j]:
            del rows[j]; del rhs[j]; del basis[j]
            continue
        e = min(rows[j])
        if rows[j][e] < 0: rows[j] = {k: -x for k, x in rows[j].items()}; rhs[j] = -rhs[j]
        for i in range(len(rows)):
            if i != j: rows[i], rhs[i] = elim(rows[i], rhs[i], e, rows[j], rhs[j])
        basis[j] = e
    # column -1 carries the scale of the objective row
    d = 1
    for _, c0 in cons:
        if isinstance(c0, F): d = d * c0.denominator // gcd(d, c0.denominator)
    z = {k: int(-c0 * d) for k, (_, c0) in enumerate(cons) if c0}
    z[-1] = d; z0 = 0
    for j in range(len(rows)):
        z, z0 = elim(z, z0, basis[j], rows[j], rhs[j])
    st, z, z0 = pivot(z, z0)
    if st == "unb": return "infeasible"      # dual unbounded: primal infeasible
    if st == "limit": return None
    return F(-z0, z[-1])

def atom_facts(at):
    """intrinsic facts (polynomials known >= 0) of an atom"""
    out = []
    o = at.op
    if o == "fdiv":
        p, k = at.a
        r = psub(p, pscale(A(at), k))
        out += [r, psub(C(k - 1), r)]
    elif o == "imax":
        a, b = at.a
        out += [psub(A(at), a), psub(A(at), b)]
    elif o == "trip":
        out.append(A(at))
        out += _trip_bounds(at)
    elif o == "nn":                  # declared non-negative quantity
        out.append(A(at))
    elif o == "ite":
        c, x, y = at.a
        if isinstance(x, P) and isinstance(y, P):
            cx, cy = x.const(), y.const()
            if cx is not None and cy is not None:
                out += [psub(A(at), C(min(cx, cy))), psub(C(max(cx, cy)), A(at))]
    elif o == "ld" and at.a[2] == "u8":
        out += [A(at), psub(C(255), A(at))]
    elif o == "isum":
        pass
    return out

_tb = {}
def _trip_bounds(at):
    r = _tb.get(at)
    if r is not None: return r
    r = []
    bv = at.a[0][0]
    cont = bnot(at.a[1][0])
    for g in (_flatand(cont)):
        if g.op == "ge0":
            l = plin(g.a[0], bv)
            if l and l[0].const() is not None and l[0].const() < 0 and bv not in leaves(l[1]):
                c = -l[0].const()
                r.append(psub(imax(ZERO, fdiv(padd(l[1], C(c)), c)), A(at)))
        elif g.op == "not" and g.a[0].op == "eq0":
            l = plin(g.a[0].a[0], bv)
    _tb[at] = r
    return r
def _flatand(b):
    if b.op == "and": return _flatand(b.a[0]) + _flatand(b.a[1])
    return [b]
def _flator(b):
    if b.op == "or": return _flator(b.a[0]) + _flator(b.a[1])
    return [b]

_extra = {}
def add_atom_fact(at, ps):
    l = _extra.setdefault(at, [])
    for p in ps:
        if p not in l: l.append(p); _cl.clear()

_cl = {}
STAT = {"lp": 0, "q": 0}
_gmemo = {}

_mm = {}
def _monos(p):
    r = _mm.get(p)
    if r is None: r = _mm[p] = frozenset(mo for mo, _ in p.m if mo != ())
    return r

class Ctx:
    """a set of assumptions: facts P >= 0, disjunctions, opaque boolean literals"""
    __slots__ = ("facts", "bools", "disj", "key")
    def __init__(self, facts=(), bools=(), disj=()):
        self.facts = tuple(dict.fromkeys(facts))
        self.bools = frozenset(bools)
        self.disj = tuple(dict.fromkeys(disj))
        self.key = (frozenset(self.facts), self.disj)
    def plus(self, lits):
        fs, bs, ds = list(self.facts), set(self.bools), list(self.disj)
        for l in lits:
            for x in _flatand(l):
                if x is TRUE: continue
                bs.add(x)
                if x.op == "ge0": fs.append(x.a[0])
                elif x.op == "eq0": fs += [x.a[0], psub(ZERO, x.a[0])]
                elif x.op == "or": ds.append(x)
                elif x.op == "not" and x.a[0].op == "eq0":
                    p = x.a[0].a[0]
                    ds.append(mk("or", ge0(psub(p, ONE)), ge0(psub(C(-1), p))))
                elif x.op == "not" and x.a[0].op == "and": pass
        return Ctx(fs, bs, ds)
    def addf(self, ps):
        return Ctx(self.facts + tuple(ps), self.bools, self.disj)
    def _closure(self, p, products):
        k = (self.facts, p.atoms(), len(_extra))
        r = _cl.get(k)
        if r is None:
            base = list(self.facts)
            seen, todo = set(), set(p.atoms())
            for f in base: todo |= f.atoms()
            extra = []
            depth = 0
            while todo and depth < 4:
                nxt = set()
                for at in todo:
                    if at in seen: continue
                    seen.add(at)
                    fs = atom_facts(at) + _extra.get(at, [])
                    extra += fs
                    for f in fs: nxt |= f.atoms()
                todo = nxt - seen
                depth += 1
            facts = [f for f in dict.fromkeys(base + extra) if f.const() is None]
            if len(_cl) > 20000: _cl.clear()
            _cl[k] = (facts, frozenset(seen))
        else: facts, seen = r
        facts = list(facts)
        if products:
            wa = set()
            for mo, _ in p.m:
                if len(mo) >= 2: wa.update(mo)
            pm = {mo for mo, _ in p.m if len(mo) >= 2}
            for f in facts:
                ms = [mo for mo, _ in f.m if len(mo) >= 2]
                if len(ms) > 1 and any(mo in pm for mo in ms): wa.update(at for mo in ms for at in mo)
            for f in facts:
                if all(len(mo) <= 1 for mo, _ in f.m) and (f.atoms() & wa) and len(f.atoms()) <= 3: wa |= f.atoms()
            lin = [f for f in facts if all(len(mo) <= 1 for mo, _ in f.m) and f.atoms() and f.atoms() <= wa][:14]
            prods = []
            for a in range(len(lin)):
                for b in range(a + 1, len(lin)): prods.append(pmul(lin[a], lin[b]))
            facts = list(dict.fromkeys(facts + prods[:120] + self._monofacts(p, facts)))
        return facts, seen
    def _monofacts(self, p, facts):
        """monomials of degree three and more: x >= l >= 0, x <= u for the atoms bound the products"""
        ms = {mo for mo, _ in p.m if len(mo) >= 3}
        if not ms: return []
        at = {a for mo in ms for a in mo}
        lo, up = {}, {}
        for f in facts:
            l = [(mo, c) for mo, c in f.m if mo != ()]
            if len(l) == 1 and len(l[0][0]) == 1 and l[0][0][0] in at:
                x, c, c0 = l[0][0][0], l[0][1], f.coef(())
                if c > 0: lo[x] = max(lo.get(x, -10**30), -c0 / F(c))
                else: up[x] = min(up.get(x, 10**30), c0 / F(-c))
        out, todo, done = [], list(ms), set()
        while todo and len(out) < 60:
            mo = todo.pop()
            if mo in done: continue
            done.add(mo)
            if any(lo.get(x, -1) < 0 for x in mo): continue
            out.append(_mkP({mo: 1}))
            for x in set(mo):
                rest = list(mo); rest.remove(x); rest = tuple(rest)
                for b, s in ((lo[x], 1), (up.get(x), -1)):
                    if b is None: continue
                    b = F(b)
                    d = {mo: s * b.denominator}
                    if b: d[rest] = -s * b.numerator
                    out.append(_mkP(d))
                if len(rest) >= 2: todo.append(rest)
        return out
    def ge0(self, p, deep=2):
        c = p.const()
        if c is not None: return c >= 0
        # integer tightening of the goal
        g = 0
        for mo, co in p.m:
            if mo != (): g = gcd(g, int(abs(co)))
        if g > 1: p = pdiv_floor(p, g)
        k = (self.key, p, deep)
        r = _gmemo.get(k)
        if r is None:
            STAT["q"] += 1
            r = _gmemo[k] = self._ge0(p, deep)
        return r
    def _lp(self, p, facts):
        con = _monos(p)
        used, rest, changed = [], [(j, _monos(f)) for j, f in enumerate(facts)], True
        con = set(con)
        while changed:
            changed = False; nxt = []
            for t in rest:
                if con.isdisjoint(t[1]): nxt.append(t)
                else: used.append(t[0]); con |= t[1]; changed = True
            rest = nxt
        fl = [facts[j] for j in sorted(used)][:260]
        if not fl: return False
        obj = {mo: c for mo, c in p.m if mo != ()}
        c0 = p.coef(())
        cons = [({mo: c for mo, c in f.m if mo != ()}, f.coef(())) for f in fl]
        STAT["lp"] += 1
        v = _simplex_min(obj, cons)
        if v == "infeasible": return True
        return v is not None and v + c0 > -1
    def _same(self):
        """atoms that equal another one: {atom: the other}"""
        r = _sm.get(self.facts)
        if r is None:
            fs, r = set(self.facts), {}
            for f in self.facts:
                if len(f.m) == 2 and f.coef(()) == 0 and {c for _, c in f.m} == {1, -1} and all(len(mo) == 1 for mo, _ in f.m) and psub(ZERO, f) in fs:
                    x, y = sorted(mo[0] for mo, _ in f.m)
                    while y in r: y = next(iter(r[y].atoms()))
                    while x in r: x = next(iter(r[x].atoms()))
                    if x is not y: x, y = sorted((x, y)); r[y] = A(x)
            if len(_sm) > 5000: _sm.clear()
            for k in list(r):
                while next(iter(r[k].atoms())) in r: r[k] = r[next(iter(r[k].atoms()))]
            _sm[self.facts] = r
        return r
    def _ge0(self, p, deep):
        hi = any(len(mo) >= 2 for mo, _ in p.m)
        if hi:
            mp = self._same()
            if mp:
                q = subst(p, mp)
                if q.const() is not None: return q.const() >= 0
                if q is not p: return Ctx([f for f in (subst(f, mp) for f in self.facts) if f.const() is None], self.bools, self.disj).ge0(q, deep)
        atoms = set()
        for products in ((False, True) if hi else (False,)):
            facts, atoms = self._closure(p, products)
            if self._lp(p, facts): return True
        if deep > 0:
            # case split on max atoms and on disjunctive facts that mention relevant atoms
            rel = set(p.atoms())
            for _ in range(3):
                for f in facts:
                    if f.atoms() & rel: rel |= f.atoms()
            for at in sorted(rel):
                if at.op == "imax":
                    a, b = at.a
                    v = A(at)
                    c1 = self.addf([psub(a, b), psub(a, v)]); c2 = self.addf([psub(b, a), psub(b, v)])
                    if not (psub(a, v) in self.facts or psub(b, v) in self.facts):
                        return c1.ge0(p, deep - 1) and c2.ge0(p, deep - 1)
            for d in self.disj:
                if any(k in rel for k in _batoms(d)) :
                    rest = Ctx(self.facts, self.bools, tuple(x for x in self.disj if x is not d))
                    if all(rest.plus([x]).ge0(p, deep - 1) for x in _flator(d)): return True
            for at in sorted(rel):
                if at.op == "trip":
                    d = subst(at.a[1][0], {at.a[0][0]: A(at)})
                    if d.op == "or" and d not in self.disj and d not in self.bools:
                        c = self.plus([d])
                        if c.ge0(p, deep - 1): return True
                    elif d.op in ("ge0", "eq0") and d not in self.bools:
                        c = self.plus([d])
                        if c.ge0(p, deep): return True
        return False
    def gt0(self, p): return self.ge0(psub(p, ONE))
    def eq(self, a, b):
        if a is b: return True
        d = psub(a, b)
        if d.const() is not None: return d.const() == 0
        return self.ge0(d) and self.ge0(psub(b, a))
    def implies(self, b):
        """True / False / None for a boolean term under the assumptions"""
        if b is TRUE: return True
        if b is FALSE: return False
        if b in self.bools: return True
        if bnot(b) in self.bools: return False
        if b.op == "ge0":
            if self.ge0(b.a[0]): return True
            if self.ge0(psub(C(-1), b.a[0])): return False
            return None
        if b.op == "eq0":
            p = b.a[0]
            if self.ge0(psub(p, ONE)) or self.ge0(psub(C(-1), p)): return False
            if self.ge0(p) and self.ge0(psub(ZERO, p)): return True
            return None
        if b.op == "not":
            r = self.implies(b.a[0])
            return None if r is None else not r
        if b.op == "and":
            x, y = self.implies(b.a[0]), self.implies(b.a[1])
            if x is False or y is False: return False
            return True if x and y else None
        if b.op == "or":
            if b in self.disj: return True
            x, y = self.implies(b.a[0]), self.implies(b.a[1])
            if x or y: return True
            return False if x is False and y is False else None
        return None
    def aligned(self, p, m):
        """p is a multiple of the power of two m"""
        r = {}
        for mo, c in p.m:
            if c % m: r[mo] = c
        rp = _mkP(r)
        if rp.const() is not None: return rp.const() % m == 0
        for b in list(self.bools) + [x for d in self.disj for x in self._unit(d)]:
            if b.op == "eq0":
                # p0 - k*fdiv(p0,k) == 0 with m | k
                q = b.a[0]
                ks = [mo[0] for mo, c in q.m if len(mo) == 1 and mo[0].op == "fdiv" and abs(c) == mo[0].a[1] and mo[0].a[1] % m == 0]
                for s in (1, -1):
                    d = padd(p, q, s)
                    if all((c % m == 0) for mo, c in d.m): return True
        return False
    def _unit(self, d):
        xs = _flator(d)
        live = [x for x in xs if self.implies(x) is not False]
        return live if len(live) == 1 else []

_sm = {}
def pdiv_floor(p, g):
    return _mkP({mo: c // g for mo, c in p.m})
_ba = {}
def _batoms(b):
    r = _ba.get(b)
    if r is None:
        r = set()
        for x in _flator(b):
            for y in _flatand(x):
                if y.op in ("ge0", "eq0"): r |= y.a[0].atoms()
                elif y.op == "not" and y.a[0].op == "eq0": r |= y.a[0].a[0].atoms()
        _ba[b] = r
    return r
