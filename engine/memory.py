"""Symbolic memory: per-object chains of abstract writes, read back under polyhedral facts."""
from terms import *
from linear import Ctx

SIZE = {"f32": 4, "f64": 8, "i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "i128": 16}
EMPTY = Ctx()

def tkey(ty):
    if ty is None: return "ptr"     # functions as values
    k = ty.k
    if k == "int": return "i%d" % ty.bits
    if k == "float": return "f32"
    if k == "double": return "f64"
    if k == "ptr": return "ptr"
    if k == "vector": return ("v", ty.n, tkey(ty.elt))
    if k in ("struct", "array"): return ("agg", ty)
    return k
def tsize(tk):
    if isinstance(tk, tuple):
        if tk[0] == "v": return tk[1] * tsize(tk[2])
        return tk[1].size
    return SIZE[tk]
def isvec(tk): return isinstance(tk, tuple) and tk[0] == "v"

def zero(tk):
    if isvec(tk): return mkvec([zero(tk[2])] * tk[1])
    if tk in ("f32", "f64"): return fc(0)
    if tk == "ptr": return NULL
    if tk == "i1": return FALSE
    return ZERO

def wrap(t, tk):
    """typed value of an opaque term"""
    if tk in ("f32", "f64"): return t
    if tk == "ptr": return mkptr(t)
    if tk == "i1": return mk("bool", t)
    return A(t)

def bits2f(p):
    c = p.const()
    if c is not None:
        import struct
        return fc(struct.unpack("<f", struct.pack("<I", c & 0xffffffff))[0])
    if len(p.m) == 1 and p.m[0][1] == 1 and len(p.m[0][0]) == 1:
        at = p.m[0][0][0]
        if at.op == "f2bits": return at.a[0]
        if at.op == "ite": 
            x, y = at.a[1], at.a[2]
            if isinstance(x, P) and isinstance(y, P):
                return ite(at.a[0], bits2f(x), bits2f(y))
    z = [mo[0] for mo, _ in p.m if len(mo) == 1 and mo[0].op == "ite"]
    return mk("bits2f", p)
register("bits2f", bits2f)
def f2bits(t):
    if t.op == "fc":
        import struct
        try: return C(struct.unpack("<i", struct.pack("<f", t.a[0]))[0])
        except OverflowError: pass
    if t.op == "bits2f": return t.a[0]
    return A(mk("f2bits", t))
register("f2bits", f2bits)

def conv(v, src, dst):
    """reinterpret a value stored as src when loaded as dst of the same size"""
    if src == dst: return v
    if isvec(src) and isvec(dst):
        if src[1] == dst[1]: return mkvec(conv(x, src[2], dst[2]) for x in v.l)
    if src == "f32" and dst == "i32": return f2bits(v)
    if src == "i32" and dst == "f32": return bits2f(v)
    if src == "ptr" and dst == "i64": return ptrint(v)
    return wrap(mk("cast", v, src, dst), dst)
def ptrint(p):
    if isinstance(p, T) and p.op == "pite": return ite(p.a[0], ptrint(p.a[1]), ptrint(p.a[2]))
    if p.base is NULLB: return p.off
    return padd(A(mk("addr", p.base)), p.off)

# -------------------------------------------------------------- reading
def _root_read(ch, off, tk):
    if isvec(tk):
        s = tsize(tk[2])
        return mkvec(_root_read(ch, padd(off, C(s * i)), tk[2]) for i in range(tk[1]))
    if ch.op == "minit": return wrap(mk("ld", ch.a[0], off, tk), tk)
    return wrap(mk("ldm", ch, off, tk), tk)

def read(ch, off, tk, ctx, depth=0):
    sz = tsize(tk)
    if isinstance(tk, tuple) and tk[0] == "agg":
        return mk("aggval", ch, off, tk[1].name or str(tk[1].size))
    while True:
        o = ch.op
        if o == "mstore":
            prev, so, stk, val = ch.a
            ssz = tsize(stk)
            d = psub(off, so); c = d.const()
            if c is not None:
                if c == 0 and ssz == sz and (isvec(tk) == isvec(stk)): return conv(val, stk, tk)
                if c >= ssz or c <= -sz: ch = prev; continue
                if isvec(stk) and c >= 0 and c + sz <= ssz:
                    es = tsize(stk[2])
                    if not isvec(tk) and es == sz and c % es == 0: return conv(val.l[c // es], stk[2], tk)
                    if isvec(tk) and tsize(tk[2]) == es and c % es == 0:
                        return mkvec(conv(x, stk[2], tk[2]) for x in val.l[c // es: c // es + tk[1]])
                if isvec(tk): return _lanes(ch, off, tk, ctx, depth)
                if not isvec(stk) and stk in ("i64", "i32", "i16") and tk in ("i8",) and c >= 0:
                    return A(mk("byte", val, c))
                return _opaque(ch, off, tk)
            if ctx.ge0(psub(d, C(ssz))) or ctx.ge0(psub(C(-sz), d)): ch = prev; continue
            if ssz == sz and ctx.eq(off, so): return conv(val, stk, tk)
            if isvec(tk): return _lanes(ch, off, tk, ctx, depth)
            if isvec(stk):
                # expand the stored vector into lanes
                es = tsize(stk[2]); m = prev
                for i, x in enumerate(val.l): m = mk("mstore", m, padd(so, C(es * i)), stk[2], x)
                ch = m; continue
            if ssz == sz and pdiv_exact(d, sz) is not None and depth < 12:
                e = eq0(d)
                return ite(e, conv(val, stk, tk), read(prev, off, tk, ctx.plus([bnot(e)]), depth + 1))
            return _opaque(ch, off, tk)
        if o == "mseg":
            prev, lo, cnt, es, stk = ch.a[2:]
            d = psub(off, lo)
            if ctx.ge0(psub(C(-sz), d)) or ctx.ge0(psub(d, pscale(cnt, es))): ch = prev; continue
            if isvec(tk):
                ls = tsize(tk[2])
                if ls == es and ctx.ge0(d) and ctx.ge0(psub(pscale(cnt, es), padd(d, C(sz)))):
                    q = pdiv_exact(d, es)
                    if q is not None:
                        return mkvec(conv(open1(ch, 0, padd(q, C(i))), stk, tk[2]) for i in range(tk[1]))
                return _lanes(ch, off, tk, ctx, depth)
            q = pdiv_exact(d, es)
            if q is None or sz != es: return _opaque(ch, off, tk)
            c1, c2 = ge0(q), ge0(psub(psub(cnt, ONE), q))
            r1, r2 = ctx.implies(c1), ctx.implies(c2)
            if r1 is False or r2 is False: ch = prev; continue
            if r1 and r2: return conv(open1(ch, 0, q), stk, tk)
            if depth > 12: return _opaque(ch, off, tk)
            ins = TRUE
            if not r1: ins = band(ins, c1)
            if not r2: ins = band(ins, c2)
            x = conv(open1(ch, 0, q), stk, tk)
            y = read(prev, off, tk, ctx.plus([bnot(ins)]), depth + 1)
            return ite(ins, x, y)
        if o == "mite":
            c, a, b = ch.a
            r = ctx.implies(c)
            if r is True: ch = a; continue
            if r is False: ch = b; continue
            if depth > 14: return _opaque(ch, off, tk)
            return ite(c, read(a, off, tk, ctx.plus([c]), depth + 1), read(b, off, tk, ctx.plus([bnot(c)]), depth + 1))
        if o == "mfill":
            prev, lo, ln, byte = ch.a
            d = psub(off, lo)
            if ctx.ge0(psub(C(-sz), d)) or ctx.ge0(psub(d, ln)): ch = prev; continue
            if isvec(tk): return _lanes(ch, off, tk, ctx, depth)
            c1, c2 = ge0(d), ge0(psub(ln, padd(d, C(sz))))
            r1, r2 = ctx.implies(c1), ctx.implies(c2)
            val = zero(tk) if byte.const() == 0 else wrap(mk("fillval", byte, tk), tk)
            if r1 and r2: return val
            if depth > 12: return _opaque(ch, off, tk)
            ins = TRUE
            if not r1: ins = band(ins, c1)
            if not r2: ins = band(ins, c2)
            return ite(ins, val, read(prev, off, tk, ctx.plus([bnot(ins)]), depth + 1))
        if o == "mcopy":
            prev, lo, ln, src, slo = ch.a
            d = psub(off, lo)
            if ctx.ge0(psub(C(-sz), d)) or ctx.ge0(psub(d, ln)): ch = prev; continue
            c1, c2 = ge0(d), ge0(psub(ln, padd(d, C(sz))))
            r1, r2 = ctx.implies(c1), ctx.implies(c2)
            if r1 and r2: ch = src; off = padd(slo, d); continue
            if isvec(tk): return _lanes(ch, off, tk, ctx, depth)
            if depth > 12: return _opaque(ch, off, tk)
            ins = TRUE
            if not r1: ins = band(ins, c1)
            if not r2: ins = band(ins, c2)
            return ite(ins, read(src, padd(slo, d), tk, ctx.plus([ins]), depth + 1), read(prev, off, tk, ctx.plus([bnot(ins)]), depth + 1))
        if o == "mloop":
            # bodies: (chain on mhole, lo, hi); prev, T
            prev, Tn = ch.a[2:4]
            bv = ch.a[0][0]; body, lo, hi = ch.a[1]
            st = plin(lo, bv)
            if st is None or bv in leaves(st[0]): return _opaque(ch, off, tk)
            step, lo0 = st
            d = psub(off, lo0)
            k, r = pdivmod(d, step)
            # tentative iteration index k: check lo(k) <= off and off+sz <= hi(k)
            lok, hik = subst(lo, {bv: k}), subst(hi, {bv: k})
            if ctx.ge0(psub(off, lok)) and ctx.ge0(psub(hik, padd(off, C(sz)))):
                c1, c2 = ge0(k), ge0(psub(psub(Tn, ONE), k))
                r1, r2 = ctx.implies(c1), ctx.implies(c2)
                if r1 is False or r2 is False: ch = prev; continue
                inner = subst(body, {bv: k, mk("mhole"): prev})
                if r1 and r2: ch = inner; continue
                if depth > 12: return _opaque(ch, off, tk)
                ins = TRUE
                if not r1: ins = band(ins, c1)
                if not r2: ins = band(ins, c2)
                return ite(ins, read(inner, off, tk, ctx.plus([ins]), depth + 1), read(prev, off, tk, ctx.plus([bnot(ins)]), depth + 1))
            # completely outside?
            e0, e1 = subst(lo, {bv: ZERO}), subst(hi, {bv: psub(Tn, ONE)})
            if ctx.ge0(psub(e0, padd(off, C(sz)))) or ctx.ge0(psub(off, e1)): ch = prev; continue
            if isvec(tk): return _lanes(ch, off, tk, ctx, depth)
            return _opaque(ch, off, tk)
        if o == "mpart":       # cells [lo,hi) of a partially processed stream are unknown here
            prev, lo, hi = ch.a[:3]
            if ctx.ge0(psub(off, hi)) or ctx.ge0(psub(lo, padd(off, C(sz)))): ch = prev; continue
            return _opaque(ch, off, tk)
        if o == "mconst":      # constant array
            vals, es, stk = ch.a
            c = off.const()
            if c is not None and not isvec(tk) and sz == es and c % es == 0 and 0 <= c // es < len(vals): return conv(vals[c // es], stk, tk)
            if isvec(tk):
                if c is not None: return _lanes(ch, off, tk, ctx, depth)
            elif sz == es and len(set(vals)) == 1: return conv(vals[0], stk, tk)
            elif sz == es and pdiv_exact(off, es) is not None:
                return wrap(mk("csel", pdiv_exact(off, es), vals, tk), tk) if stk == tk else _root_read(ch, off, tk)
            return _root_read(ch, off, tk)
        return _root_read(ch, off, tk)

def _lanes(ch, off, tk, ctx, depth):
    s = tsize(tk[2])
    return mkvec(read(ch, padd(off, C(s * i)), tk[2], ctx, depth) for i in range(tk[1]))
def _opaque(ch, off, tk):
    if isvec(tk):
        s = tsize(tk[2])
        return mkvec(_opaque(ch, padd(off, C(s * i)), tk[2]) for i in range(tk[1]))
    return wrap(mk("ldm", ch, off, tk), tk)

# re-reading after substitution
def _re_ldm(ch, off, tk):
    v = read(ch, off, tk, EMPTY)
    if isinstance(v, P):
        return v
    if isinstance(v, Ptr):
        return v
    return v
register("ldm", _re_ldm)
register("ld", lambda b, off, tk: mk("ld", b if not isinstance(b, Ptr) else b.base, off if not isinstance(b, Ptr) else padd(b.off, off), tk))

def mite(c, a, b):
    if c is TRUE or a is b: return a
    if c is FALSE: return b
    if c.op == "not": return mite(c.a[0], b, a)
    return mk("mite", c, a, b)
register("mite", mite)
def mseg(bvs, bodies, prev, lo, cnt, es, tk):
    c = cnt.const()
    if c is not None and c <= 0: return prev
    return mk("mseg", bvs, bodies, prev, lo, cnt, es, tk)
register("mseg", mseg)
def mloop(bvs, bodies, prev, Tn):
    c = Tn.const()
    if c is not None and c <= 0: return prev
    return mk("mloop", bvs, bodies, prev, Tn)
register("mloop", mloop)
def mpart(prev, lo, hi, key):
    if hi is lo: return prev
    return mk("mpart", prev, lo, hi, key)
register("mpart", mpart)
def mcopy(prev, lo, ln, src, slo):
    return mk("mcopy", prev, lo, ln, src, slo)

def writes(ch, stop):
    """all write nodes of a chain down to the roots in `stop`; None if another opaque root is met"""
    out, seen, st = [], set(), [ch]
    while st:
        x = st.pop()
        if x in seen or x in stop: continue
        seen.add(x)
        o = x.op
        if o in ("mstore", "mfill", "mcopy"): out.append(x); st.append(x.a[0])
        elif o in ("mseg", "mloop"): out.append(x); st.append(x.a[2])
        elif o == "mite": st += [x.a[1], x.a[2]]
        elif o == "mpart": out.append(x); st.append(x.a[0])
        else: return None
    return out
def interval(w):
    o = w.op
    if o == "mstore": return w.a[1], padd(w.a[1], C(tsize(w.a[2])))
    if o == "mfill" or o == "mcopy": return w.a[1], padd(w.a[1], w.a[2])
    if o == "mseg": return w.a[3], padd(w.a[3], pscale(w.a[4], w.a[5]))
    if o == "mloop":
        bv = w.a[0][0]; _, lo, hi = w.a[1]
        return subst(lo, {bv: ZERO}), subst(hi, {bv: psub(w.a[3], ONE)})
    if o == "mpart": return w.a[1], w.a[2]
