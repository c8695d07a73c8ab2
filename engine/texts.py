"""What a range of bytes in memory consists of: constants, printed values, fills and unchanged pieces of other objects.

A text is a tuple of tokens: a str (literal characters), ("num", directive, values), ("chr", value), ("fill", byte, count),
("mem", root, offset, count) for bytes of an object as it was, or ("zero",) for a terminator."""
from terms import *
from memory import *
class Unclear(Exception): pass

def tlen(E, S, t):
    if isinstance(t, str): return C(len(t))
    if t[0] in ("chr", "zero", "byte"): return ONE
    if t[0] == "fill": return t[2]
    if t[0] in ("mem", "undef"): return t[3]
    r = A(mk("ext", "numlen", t[1:], 32))
    return r
def total(E, S, ts):
    n = ZERO
    for t in ts: n = padd(n, tlen(E, S, t))
    return n
def le(S, a, b): return S.ctx.ge0(psub(b, a))
def leq(S, a, b):
    """a <= b, splitting the state where that is not known"""
    import explore
    r = S.ctx.implies(ge0(psub(b, a)))
    if r is None: raise explore.Fork(ge0(psub(b, a)))
    return r
def same(S, a, b): return a is b or S.ctx.eq(a, b)

def piece(E, S, ch, o, end, lim=()):
    """(token, length) of the piece that starts at offset o"""
    lim = list(lim)
    while True:
        op = ch.op
        if op == "mstore":
            prev, so, tk, val = ch.a
            n = C(tsize(tk))
            if le(S, padd(so, n), o): ch = prev; continue
            if le(S, padd(o, ONE), so): lim.append(so); ch = prev; continue
            d = psub(o, so).const()
            if d is None and same(S, o, so): d = 0
            if tk == "i8" and d == 0:
                return cut(E, S, chr(val.const() & 255) if val.const() else ("zero",) if val.const() == 0 else ("chr", val), ONE, o, end, lim)
            if isinstance(val, P) and val.const() is not None and d is not None and tk in ("i16", "i32", "i64"):
                by = (val.const() >> (8 * d)) & 255
                return cut(E, S, chr(by) if by else ("zero",), ONE, o, end, lim)
            if isinstance(val, P) and d is not None and tk in ("i16", "i32", "i64"): return cut(E, S, ("byte", val, d), ONE, o, end, lim)
            if val in (NULL,) or isvec(tk) and all(isinstance(v, P) and v.const() == 0 for v in val.l): return cut(E, S, ("zero",), ONE, o, end, lim)
            raise Unclear("a %s in a text" % (tk,))
        if op in ("mcopy", "mfill"):
            prev, lo, ln = ch.a[:3]
            if le(S, padd(o, ONE), lo): lim.append(lo); ch = prev; continue
            if leq(S, padd(lo, ln), o): ch = prev; continue
            if leq(S, padd(o, ONE), lo): lim.append(lo); ch = prev; continue
            left = psub(padd(lo, ln), o)
            if op == "mfill":
                return cut(E, S, ("fill", ch.a[3], left), left, o, end, lim)
            t, n = piece(E, S, ch.a[3], padd(ch.a[4], psub(o, lo)), padd(ch.a[4], ln))
            return cut(E, S, t, n, o, end, lim)
        if op == "mite":
            r = S.ctx.implies(ch.a[0])
            if r is None: raise Unclear("a conditional text")
            ch = ch.a[1] if r else ch.a[2]; continue
        if op == "mconst":
            vals, es, tk = ch.a
            c = o.const()
            if es == 1 and c is not None and 0 <= c < len(vals):
                v = vals[c].const()
                return cut(E, S, chr(v & 255) if v else ("zero",), ONE, o, end, lim)
            raise Unclear("a position in a table")
        if op == "minit":
            src = ch.a[0]
            if src.op == "ext" and src.a[0] == "text":
                at = ZERO
                for t in src.a[1]:
                    n = tlen(E, S, t)
                    d = psub(o, at).const()
                    if isinstance(t, str) and d is not None and 0 <= d < len(t): return cut(E, S, t[d:], C(len(t) - d), o, end, lim)
                    if t[0] in ("fill", "mem") and le(S, at, o) and le(S, padd(o, ONE), padd(at, n)):
                        d = psub(o, at); left = psub(n, d)
                        return cut(E, S, ("fill", t[1], left) if t[0] == "fill" else ("mem", t[1], padd(t[2], d), left), left, o, end, lim)
                    if same(S, o, at) and not leq(S, n, ZERO): return cut(E, S, t, n, o, end, lim)
                    at = padd(at, n)
                if same(S, o, at): return cut(E, S, ("zero",), ONE, o, end, lim)
                raise Unclear("a position inside a printed text")
            s = E.cstr(mkptr(src, ZERO)) if src.op == "global" else None
            if s is not None and o.const() is not None and 0 <= o.const() <= len(s):
                return cut(E, S, s[o.const():] or ("zero",), C(len(s) - o.const() or 1), o, end, lim)
            if end is None: raise Unclear("how far a string reaches")
            left = psub(end, o)
            return cut(E, S, ("mem", src, o, left), left, o, end, lim)
        if op == "mundef":
            if end is None: raise Unclear("how far a string reaches")
            left = psub(end, o)
            return cut(E, S, ("undef", ch.a[0], o, left), left, o, end, lim)
        raise Unclear("contents from %s" % op)
def cut(E, S, t, n, o, end, lim):
    """shorten a token that runs into what was written later"""
    for l in list(lim) + ([end] if end is not None else []):
        room = psub(l, o)
        if leq(S, n, room): continue
        if isinstance(t, str) and room.const() is not None and room.const() > 0: t = t[:room.const()]; n = room
        elif t[0] == "fill" and le(S, room, n): t = ("fill", t[1], room); n = room
        elif t[0] in ("mem", "undef") and le(S, room, n): t = (t[0], t[1], t[2], room); n = room
        else: raise Unclear("how far a piece reaches")
    return t, n
def text(E, S, ch, o, end, zero=False):
    """the tokens of the bytes [o, end), or up to the first terminator"""
    out = []
    for _ in range(200):
        if not zero and (same(S, o, end) or leq(S, end, o)): break
        t, n = piece(E, S, ch, o, end)
        if zero:
            if t == ("zero",) or t[0] == "fill" and t[1].const() == 0: break
            if t[0] in ("mem", "chr", "undef") and not isinstance(t, str): raise Unclear("a terminator in %s" % t[0])
        if out and isinstance(out[-1], str) and isinstance(t, str): out[-1] += t
        else: out.append(t)
        o = padd(o, n)
    else: raise Unclear("a long text")
    return tuple(out)
def string_at(E, S, p):
    p = E.resolve(S, p)
    s = E.cstr(p)
    if s is not None: return (s,) if s else ()
    try: return text(E, S, S.st.get(p.base), p.off, None, zero=True)
    except Unclear:
        for q, c in S.known.get(p.base, ()):
            if c == 0 and p.off is ZERO and S.st.get(p.base) is S.st.root(p.base) and p.base.op == "sym": return (("mem", p.base, ZERO, q),)
        raise
def first_zero(E, S, p):
    """a position at or after p where a terminator is stored (what is before it may have others)"""
    o = S.obj.get(p.base)
    if o is None: return None
    at, ch = p.off, S.st.get(p.base)
    try:
        for _ in range(20):
            if S.ctx.ge0(psub(at, o[0])): return None
            t, n = piece(E, S, ch, at, o[0])
            if t == ("zero",) or isinstance(t, tuple) and t[0] == "fill" and t[1].const() == 0: return at
            at = padd(at, n)
    except Unclear: pass
    return None
def tsame(S, a, b):
    """two tokens stand for the same bytes"""
    if a == b: return True
    if isinstance(a, str) or isinstance(b, str) or a[0] != b[0] or len(a) != len(b): return False
    return all(x is y or x == y or isinstance(x, P) and isinstance(y, P) and same(S, x, y) for x, y in zip(a[1:], b[1:]))
def equal(S, t, u):
    """True / False / None (not known): two texts are the same bytes"""
    if len(t) == len(u) and all(tsame(S, a, b) for a, b in zip(t, u)): return True
    for y in t + u:
        if isinstance(y, tuple) and (y[0] == "chr" or y[0] == "mem" and y[1].op in ("ext", "slot", "ld")): return None
    return False
