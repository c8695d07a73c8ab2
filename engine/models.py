"""What the library functions that the code relies on may do: every documented outcome of a call with its effect on the
resources, the memory and the strings involved. (rules for engine/explore.py)"""
from terms import *
from memory import *
from explore import Out, Fork, Stop, HELD, GONE, MOVED, _flatand
from interp import Unsupported

MODELS = {}
def model(*names):
    def d(h):
        for n in names: MODELS[n] = h
        return h
    return d

HEAP, STREAM, FD, MAP, ARCH, ENTRY, SOURCE, DL, NAME = ("memory", "open file", "file descriptor", "mapping", "archive", "archive entry",
                                                         "archive source", "loaded library", "name owned by the archive")
def name_of(x):
    n = x.callee.name or ""
    for p in ("__isoc23_", "__isoc99_", "__builtin_"):
        if n.startswith(p): n = n[len(p):]
    return n
def ext(E, S, x, tag, bits=64):
    return A(mk("ext", tag, S.fresh(tag, E.key(x)), bits))
def new(E, S, x, kind, tag=None):
    b = mk("obj", tag or kind, S.fresh(tag or kind, E.key(x)))
    E.acq[b] = "%s:%s" % (E.short(x.file), x.line)
    return b
def hold(b, kind, size=None, align=1, init=None, known=(), own=()):
    def eff(T_):
        T_.res[b] = (kind, HELD)
        if size is not None: T_.obj[b] = (size, align, kind)
        T_.st.d[b] = init if init is not None else mk("mundef", b)
        T_.known.pop(b, None); T_.own.pop(b, None)
        if known: T_.known[b] = frozenset(known)
        if own: T_.own[b] = tuple(own)
    return eff
def both(*effs):
    def eff(T_):
        for e in effs:
            if e is not None: e(T_)
    return eff
def fails(label):
    """a failure that somebody has to hear about"""
    def eff(T_):
        if "silent" not in T_.tags: T_.tags["silent"] = label
    return eff
def spoken(T_): T_.tags.pop("silent", None)
def alive(E, S, *ps):
    """arguments that the callee looks at must not be released"""
    for p in ps:
        if isinstance(p, Ptr):
            r = S.res.get(p.base)
            if r is not None and r[1] == GONE: E.report("use", "%s is used after its release" % r[0]); raise Stop()
def released(E, S, p, kind, what, status=GONE, null_ok=False):
    """the effect of giving a resource back"""
    if isinstance(p, P):
        k = next((a for a in p.atoms() if a.op == "fd"), None)
        if k is None: 
            if p.const() is None: S.fuzzy = S.fuzzy or "%s of an unknown descriptor" % what
            return None
        b = k
    else:
        if p.base is NULLB:
            if not null_ok: E.report("null", "%s of a null pointer" % what); raise Stop()
            return None
        b = p.base
    r = S.res.get(b)
    if r is None:
        if b.op in ("alloca", "global", "cstr", "func"):
            E.report("release", "%s of something that was not acquired (%s)" % (what, show(b, 1))); raise Stop()
        S.fuzzy = S.fuzzy or "%s of %s" % (what, show(b, 2))
        return None
    if r[1] == GONE: E.report("twice", "%s is released twice (%s)" % (r[0], what)); raise Stop()
    if r[1] == MOVED: E.report("twice", "%s is released although it was handed over (%s)" % (r[0], what)); raise Stop()
    if r[0] != kind: E.report("mismatch", "%s released with %s" % (r[0], what)); raise Stop()
    if not isinstance(p, P) and S.ctx.implies(eq0(p.off)) is False: E.report("release", "%s of the middle of a block" % what); raise Stop()
    def eff(T_): T_.res[b] = (r[0], status)
    return eff

# ---------------------------------------------------------------- memory
def alloc(E, S, x, n, label, init=None, align=16, lits=(), tag="heap"):
    outs = []
    if E.alloc_fail: outs.append(Out(NULL, (), fails(label + " fails"), label + " fails"))
    elif not S.ctx.ge0(n): outs.append(Out(NULL, [bnot(ge0(n))], fails(label + " fails"), label + " fails (size)"))
    b = new(E, S, x, HEAP, tag)
    if E.wrap64 and n.const() is None: lits = list(lits) + [ge0(psub(C((1 << 63) - 1), n))]
    outs.append(Out(mkptr(b), [ge0(n)] + list(lits), hold(b, HEAP, n, align, init and init(b))))
    return outs
@model("malloc")
def m_malloc(E, S, a, x): return alloc(E, S, x, a[0], "malloc")
@model("calloc")
def m_calloc(E, S, a, x):
    n = pmul(a[0], a[1])
    for p in a[:2]:
        if not S.ctx.ge0(p): 
            r = S.ctx.implies(ge0(p))
            if r is None: raise Fork(ge0(p))
            if r is False: return [Out(NULL, (), fails("calloc fails"), "calloc fails (size)")]
    if not S.ctx.ge0(n): S.ctx = S.ctx.addf([n])
    return alloc(E, S, x, n, "calloc", lambda b: mk("mfill", mk("mundef", b), ZERO, n, ZERO))
@model("_mm_malloc", "aligned_alloc", "memalign")
def m_aligned(E, S, a, x):
    nm = name_of(x)
    n, al = (a[0], a[1]) if nm == "_mm_malloc" else (a[1], a[0])
    return alloc(E, S, x, n, nm, align=al.const() or 16)
@model("posix_memalign")
def m_pm(E, S, a, x):
    outs = []
    if E.alloc_fail: outs.append(Out(C(12), (), fails("posix_memalign fails"), "posix_memalign fails"))
    elif not S.ctx.ge0(a[2]): outs.append(Out(C(12), [bnot(ge0(a[2]))], fails("posix_memalign fails"), "posix_memalign fails (size)"))
    E.touch(S, "store", a[0], C(8), x)
    b = new(E, S, x, HEAP, "heap")
    def eff(T_): E.store_at(T_, a[0], "ptr", mkptr(b))
    outs.append(Out(ZERO, [ge0(a[2])], both(hold(b, HEAP, a[2], a[1].const() or 16), eff)))
    return outs
@model("realloc")
def m_realloc(E, S, a, x):
    p, n = a[0], a[1]
    if isinstance(p, Ptr) and p.base is NULLB: return m_malloc(E, S, [n], x)
    eff = released(E, S, p, HEAP, "realloc")
    old = S.obj.get(p.base, (None,))[0]; ch = S.st.get(p.base)
    kn = S.known.get(p.base, frozenset())
    z = S.ctx.implies(eq0(n))
    if z is None: raise Fork(eq0(n))
    if z: return [Out(NULL, (), eff)]                  # the block is released (glibc)
    outs = []
    if E.alloc_fail: outs.append(Out(NULL, (), fails("realloc fails"), "realloc fails"))
    b = new(E, S, x, HEAP, "heap")
    grow = old is not None and S.ctx.ge0(psub(n, old))
    init = mcopy(mk("mundef", b), ZERO, old if grow else n, ch, ZERO) if old is not None else mk("minit", mk("ext", "realloc", S.fresh("re", E.key(x))))
    outs.append(Out(mkptr(b), [ge0(n)], both(hold(b, HEAP, n, 16, init, kn if grow else ()), eff)))
    return outs
@model("free", "_mm_free")
def m_free(E, S, a, x):
    eff = released(E, S, a[0], HEAP, "free", null_ok=True)
    # the archive may still need a buffer it only borrowed
    return [Out(None, (), eff)]
@model("reallocarray")
def m_reallocarray(E, S, a, x): return m_realloc(E, S, [a[0], pmul(a[1], a[2])], x)

# ---------------------------------------------------------------- strings
def nul(E, S, p):
    """position of a byte known to be 0 at or after p (or None)"""
    best = None
    for q, c in sorted(S.known.get(p.base, ()), key=lambda t: (t[0].id, t[1])):
        if c == 0 and S.ctx.ge0(psub(q, p.off)) and (best is None or S.ctx.ge0(psub(best, q))): best = q
    return best
def slen(E, S, p, x):
    """(length of the string, reads checked)"""
    p = E.resolve(S, p)
    if not isinstance(p, Ptr): raise Unsupported("string through %s" % show(p, 2))
    E.touch(S, "load", p, ONE, x)
    s = E.cstr(p)
    if s is not None: return C(len(s))
    if E.texts:
        import texts
        try: return texts.total(E, S, texts.string_at(E, S, p))
        except texts.Unclear: pass
    q = nul(E, S, p)
    if q is None and E.texts:
        q = texts.first_zero(E, S, p)
        if q is not None: S.known[p.base] = S.known.get(p.base, frozenset()) | {(q, 0)}
    if q is None:
        if p.base in S.obj or p.base.op == "alloca":
            E.bound(S, "string", x, [C(-1)], "the string is not known to be terminated inside its %s" % (S.obj.get(p.base, (0, 0, "object"))[2]))
        else: S.fuzzy = S.fuzzy or "length of an unknown string"
        n = A(mk("slen", S.st.get(p.base), p.off))
        S.ctx = S.ctx.addf([n])
        return n
    if q is p.off or S.ctx.eq(q, p.off): return ZERO
    n = A(mk("slen", S.st.get(p.base), p.off))
    new_ = [f for f in (n, psub(psub(q, p.off), n)) if f not in S.ctx.facts]
    if new_: S.ctx = S.ctx.addf(new_)
    k = S.known.get(p.base, frozenset())
    S.known[p.base] = k | {(padd(p.off, n), 0)}
    return n
@model("strlen")
def m_strlen(E, S, a, x): return [Out(slen(E, S, a[0], x))]
@model("strnlen")
def m_strnlen(E, S, a, x):
    r = ext(E, S, x, "strnlen"); S.ctx = S.ctx.addf([r, psub(a[1], r)]); return [Out(r)]
def putstr(E, S, d, n, x, src=None, text=None):
    """n bytes and a terminator are stored at d"""
    E.touch(S, "store", d, padd(n, ONE), x)
    if text is not None:
        E.forget(S, d.base, d.off, padd(n, ONE))
        S.st.d[d.base] = mcopy(S.st.get(d.base), d.off, padd(n, ONE), mk("minit", mk("ext", "text", text)), ZERO)
        S.known[d.base] = S.known.get(d.base, frozenset()) | {(padd(d.off, n), 0)}
        return
    if src is not None:
        E.forget(S, d.base, d.off, padd(n, ONE))
        S.st.d[d.base] = mcopy(S.st.get(d.base), d.off, padd(n, ONE), S.st.get(src.base), src.off)
    else: E.havoc(S, d, padd(n, ONE), "text")
    S.known[d.base] = S.known.get(d.base, frozenset()) | {(padd(d.off, n), 0)}
@model("strcpy", "stpcpy")
def m_strcpy(E, S, a, x):
    n = slen(E, S, a[1], x)
    putstr(E, S, a[0], n, x, E.resolve(S, a[1]))
    return [Out(a[0] if name_of(x) == "strcpy" else mkptr(a[0].base, padd(a[0].off, n)))]
@model("strcat")
def m_strcat(E, S, a, x):
    m = slen(E, S, a[0], x); n = slen_within(E, S, a[1], a[2], x)
    putstr(E, S, mkptr(a[0].base, padd(a[0].off, m)), n, x, E.resolve(S, a[1]))
    return [Out(a[0])]
def slen_within(E, S, p, most, x):
    """the length of a string of which at most so many bytes are read"""
    p = E.resolve(S, p)
    if E.cstr(p) is not None or nul(E, S, p) is not None or E.texts and texts_zero(E, S, p): return slen(E, S, p, x)
    E.touch(S, "load", p, most, x)
    n = A(mk("slen", S.st.get(p.base), p.off)); S.ctx = S.ctx.addf([n])
    return n
def texts_zero(E, S, p):
    import texts
    return texts.first_zero(E, S, p) is not None
@model("strncpy")
def m_strncpy(E, S, a, x):
    n = slen_within(E, S, a[1], a[2], x)
    E.touch(S, "store", a[0], a[2], x)
    r = S.ctx.implies(ge0(psub(psub(a[2], ONE), n)))
    if r is None: raise Fork(ge0(psub(psub(a[2], ONE), n)))
    src = E.resolve(S, a[1])
    E.forget(S, a[0].base, a[0].off, a[2])
    if r:
        S.st.d[a[0].base] = mk("mfill", S.st.get(a[0].base), a[0].off, a[2], ZERO)
        S.st.d[a[0].base] = mcopy(S.st.get(a[0].base), a[0].off, n, S.st.get(src.base), src.off)
        S.known[a[0].base] = S.known.get(a[0].base, frozenset()) | {(padd(a[0].off, n), 0), (psub(padd(a[0].off, a[2]), ONE), 0)}
    else: S.st.d[a[0].base] = mcopy(S.st.get(a[0].base), a[0].off, a[2], S.st.get(src.base), src.off)
    return [Out(a[0])]
@model("strncat")
def m_strncat(E, S, a, x):
    m = slen(E, S, a[0], x); n = slen_within(E, S, a[1], a[2], x)
    r = S.ctx.implies(ge0(psub(a[2], n)))
    if r is None: raise Fork(ge0(psub(a[2], n)))
    putstr(E, S, mkptr(a[0].base, padd(a[0].off, m)), n if r else a[2], x)
    return [Out(a[0])]
@model("strdup")
def m_strdup(E, S, a, x):
    n = slen(E, S, a[0], x); src = E.resolve(S, a[0])
    ch, off = S.st.get(src.base), src.off
    return alloc(E, S, x, padd(n, ONE), "strdup", lambda b: mcopy(mk("mundef", b), ZERO, padd(n, ONE), ch, off)) and \
           [_nulled(o, n) for o in alloc(E, S, x, padd(n, ONE), "strdup", lambda b: mcopy(mk("mundef", b), ZERO, padd(n, ONE), ch, off))]
def _nulled(o, n):
    if o.val is not NULL:
        b = o.val.base
        def eff(T_): T_.known[b] = T_.known.get(b, frozenset()) | {(n, 0)}
        o.eff = both(o.eff, eff)
    return o
@model("strchr", "strrchr")
def m_strchr(E, S, a, x):
    p, c = E.resolve(S, a[0]), a[1]
    s = E.cstr(p)
    cc = c.const()
    if s is not None and cc is not None:
        if cc == 0: return [Out(mkptr(p.base, padd(p.off, C(len(s)))))]
        k = s.find(chr(cc)) if name_of(x) == "strchr" else s.rfind(chr(cc))
        return [Out(NULL if k < 0 else mkptr(p.base, padd(p.off, C(k))))]
    if s is not None:
        outs, none = [], []
        for k, ch in list(enumerate(s)) + [(len(s), "\0")]:
            l = eq0(psub(c, C(ord(ch))))
            if S.ctx.implies(l) is False: continue
            outs.append(Out(mkptr(p.base, padd(p.off, C(k))), [l])); none.append(bnot(l))
        return outs + [Out(NULL, none)]
    n = slen(E, S, p, x)
    if cc == 0: return [Out(mkptr(p.base, padd(p.off, n)))]
    q = A(mk("schr", name_of(x), S.st.get(p.base), p.off, c))
    lits = [ge0(q), ge0(psub(psub(n, ONE), q))]
    def eff(T_):
        if cc is not None: T_.known[p.base] = T_.known.get(p.base, frozenset()) | {(padd(p.off, q), cc)}
    return [Out(NULL), Out(mkptr(p.base, padd(p.off, q)), lits, eff)]
@model("strstr")
def m_strstr(E, S, a, x):
    p, w = E.resolve(S, a[0]), E.resolve(S, a[1])
    n, m = slen(E, S, p, x), slen(E, S, w, x)
    q = A(mk("sstr", S.st.get(p.base), p.off, w))
    return [Out(NULL), Out(mkptr(p.base, padd(p.off, q)), [ge0(q), ge0(psub(psub(n, m), q))])]
@model("strpbrk", "strtok")
def m_strpbrk(E, S, a, x):
    p = E.resolve(S, a[0]); n = slen(E, S, p, x); slen(E, S, a[1], x)
    q = ext(E, S, x, "pbrk")
    return [Out(NULL), Out(mkptr(p.base, padd(p.off, q)), [ge0(q), ge0(psub(psub(n, ONE), q))])]
@model("strspn", "strcspn")
def m_strspn(E, S, a, x):
    n = slen(E, S, a[0], x); slen(E, S, a[1], x)
    r = ext(E, S, x, "span"); S.ctx = S.ctx.addf([r, psub(n, r)])
    return [Out(r)]
@model("strcmp", "strncmp", "strcasecmp", "memcmp", "strncasecmp")
def m_strcmp(E, S, a, x):
    nm = name_of(x)
    p, q = E.resolve(S, a[0]), E.resolve(S, a[1])
    if nm == "memcmp":
        E.touch(S, "load", p, a[2], x); E.touch(S, "load", q, a[2], x)
    else:
        s, t = E.cstr(p), E.cstr(q)
        if s is not None and t is not None and len(a) == 2: return [Out(C((s > t) - (s < t)))]
        if s is None: slen(E, S, p, x) if len(a) == 2 else E.touch(S, "load", p, ONE, x)
        if t is None: slen(E, S, q, x) if len(a) == 2 else E.touch(S, "load", q, ONE, x)
    r = A(mk("ext", "cmp", (nm, S.st.get(p.base), p.off, S.st.get(q.base) if E.cstr(q) is None else q.base, q.off, a[2] if len(a) > 2 else None), 32))
    return [Out(r)]
def digit_at(E, S, p):
    """the byte at p is known to be a decimal digit"""
    c = E.byte(S, p)
    if c.const() is not None: return 48 <= c.const() <= 57
    if S.ctx.ge0(psub(c, C(48))) and S.ctx.ge0(psub(C(57), c)): return True
    ats = set(c.atoms())
    for l in S.ctx.bools:
        if l.op == "not" and l.a[0].op == "eq0":
            z = l.a[0].a[0]
            for at in z.atoms():
                if at.op == "iop" or at.op.startswith("and") or True:
                    if any(isinstance(s, T) and s.op == "ctype" and (set(y for y in subterms(s) if isinstance(y, T)) & ats) for s in subterms(at)): return True
    return False
@model("strtol", "strtoll", "strtoul", "strtoull", "atoi", "atol", "atoll", "strtof", "strtod", "atof")
def m_strtol(E, S, a, x):
    nm = name_of(x)
    p = E.resolve(S, a[0])
    E.touch(S, "load", p, ONE, x)
    fl = nm in ("strtof", "strtod", "atof")
    stop = None
    s = E.cstr(p)
    for q, c in sorted(S.known.get(p.base, ()), key=lambda t: (t[0].id, t[1])):
        if (c == 0 or not (chr(c & 127).isalnum() or chr(c & 127) in " \t\n\v\f\r+-." + ("()_" if fl else ""))) and S.ctx.ge0(psub(q, p.off)):
            if stop is None or S.ctx.ge0(psub(stop, q)): stop = q
    if s is not None: stop = padd(p.off, C(len(s)))
    if stop is None: slen(E, S, p, x); stop = nul(E, S, p)
    if fl: r = E.opaque(S, x, "number")
    else:
        r = ext(E, S, x, "number", x.ty.bits)
        if E.wrap64 and nm in ("strtol", "strtoll", "atol", "atoll"): S.ctx = S.ctx.addf([psub(C((1 << 63) - 1), r), padd(r, C(1 << 63))])
        if digit_at(E, S, p) or nm in ("strtoul", "strtoull"):
            if nm not in ("strtoul", "strtoull"): S.ctx = S.ctx.addf([r])
    if len(a) > 1 and isinstance(a[1], Ptr) and a[1].base is not NULLB:
        e = ext(E, S, x, "end")
        fs = [e]
        if stop is not None: fs.append(psub(psub(stop, p.off), e))
        if not fl and digit_at(E, S, p): fs.append(psub(e, ONE))
        S.ctx = S.ctx.addf(fs)
        E.touch(S, "store", a[1], C(8), x)
        E.store_at(S, a[1], "ptr", mkptr(p.base, padd(p.off, e)))
    return [Out(r)]
@model("__ctype_b_loc")
def m_ctype(E, S, a, x):
    b = mk("ctab"); S.st.d[b] = mk("mstore", mk("mundef", b), ZERO, "ptr", mkptr(mk("ctypetab")))
    return [Out(mkptr(b))]
@model("toupper", "tolower", "isdigit", "isspace", "isalpha")
def m_cc(E, S, a, x): return [Out(ext(E, S, x, "cc", 32))]

# ---------------------------------------------------------------- formatted output
import re
_DIR = re.compile(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diouxXcsfFgGeEpan%])")
def fmtlen(E, S, fmt, args, x):
    """(exact length or None, lower, upper) of the text a format produces; upper None = unbounded"""
    lo = up = ZERO; exact = True; pos = 0; k = 0
    def arg():
        nonlocal k
        v = args[k] if k < len(args) else None
        k += 1
        return v
    for m in _DIR.finditer(fmt):
        lit = C(m.start() - pos); lo = padd(lo, lit); up = up and padd(up, lit) if up is not None else None
        pos = m.end()
        fl, w, pr, ln, cv = m.groups()
        if cv == "%": l = u = ONE
        else:
            wv = arg() if w == "*" else C(int(w)) if w else None
            pv = arg() if pr == "*" else C(int(pr)) if pr is not None else None
            if cv == "n": raise Unsupported("%n in a format")
            v = arg()
            if cv == "c": l = u = ONE
            elif cv == "s":
                v = E.resolve(S, v)
                if isinstance(v, Ptr) and v.base is NULLB: l = u = C(6)
                elif pv is not None: alive(E, S, v); l, u = ZERO, pv
                else: l = u = slen(E, S, v, x)
            elif cv in "di":
                c = v.const() if isinstance(v, P) else None
                if c is not None and not fl and pv is None: l = u = C(len(str(c)))
                else:
                    wide = ln in ("l", "ll", "z", "j", "t")
                    l, u = ONE, C(20 if wide else 11)
                    if isinstance(v, P) and S.ctx.ge0(v):
                        u = C(19 if wide else 10)
                        for d in range(1, 10):
                            if S.ctx.ge0(psub(C(10 ** d - 1), v)): u = C(d); break
            elif cv in "uoxX":
                wide = ln in ("l", "ll", "z", "j", "t")
                c = v.const() if isinstance(v, P) else None
                if cv == "u" and c is not None and c >= 0 and not fl: l = u = C(len(str(c)))
                else: l, u = ONE, C({"u": 20 if wide else 10, "o": 23 if wide else 12}.get(cv, 18 if wide else 10))
                if cv == "u" and u.const() > 1 and isinstance(v, P) and S.ctx.ge0(v):
                    for d in range(1, 20):
                        if S.ctx.ge0(psub(C(10 ** d - 1), v)): u = C(d); break
            elif cv == "p": l, u = C(3), C(18)
            elif cv in "fF":
                dg = pv if pv is not None else C(6)
                isf = isinstance(v, T) and v.op == "fpext"
                l, u = C(3), padd(dg, C(42 if isf else 312))
            else:
                dg = pv if pv is not None else C(6)
                l, u = ONE, padd(dg, C(10))
            if wv is not None:
                if l is u and S.ctx.ge0(psub(l, wv)): pass
                elif S.ctx.ge0(psub(wv, u)) and (u.const() is not None or l is u): l = u = wv
                else:
                    if S.ctx.ge0(wv): u = padd(u, wv) if u is not None else None
                    else: l, u = l, None
        if l is not u and l != u: exact = False
        lo = padd(lo, l)
        up = padd(up, u) if up is not None and u is not None else None
    rest = C(len(fmt) - pos)
    lo = padd(lo, rest); up = padd(up, rest) if up is not None else None
    return (lo if exact and up is not None else None), lo, up
def fmttext(E, S, fmt, args, x):
    """(tokens, length) of the text a format produces (texts.Unclear when it is not known)"""
    import texts
    out, n, k, pos = [], ZERO, 0, 0
    def add(t):
        nonlocal n
        if t == "": return
        if out and isinstance(out[-1], str) and isinstance(t, str): out[-1] += t
        else: out.append(t)
        n = padd(n, texts.tlen(E, S, t))
    for m in _DIR.finditer(fmt):
        add(fmt[pos:m.start()]); pos = m.end()
        fl, w, pr, ln, cv = m.groups()
        if cv == "%": add("%"); continue
        use = []
        for g in (w, pr):
            if g == "*": use.append(args[k]); k += 1
        v = args[k]; k += 1
        wv = (use[0] if w == "*" else C(int(w))) if w else None
        if cv == "s" and pr is None: inner = texts.string_at(E, S, v)
        elif cv == "c": inner = (("chr", v),) if v.const() is None else (chr(v.const() & 255),) if v.const() else (("zero",),)
        elif cv in "diuxX" and pr is None and (wv is None or wv.const() is None or fl == ""):
            c = v.const() if isinstance(v, P) else None
            if c is not None and cv in "diu" and (c >= 0 or cv != "u") and not fl: inner = (str(c),)
            else:
                d = "%" + fl.replace("-", "") + (ln or "") + cv
                ex, lo, up = fmtlen(E, S, d, [v], x)
                t = ("num", d, v); l = texts.tlen(E, S, t)
                S.ctx = S.ctx.addf([f for f in [psub(l, lo)] + ([psub(up, l)] if up is not None else []) if f not in S.ctx.facts])
                inner = (t,)
        else: raise texts.Unclear("directive %%%s" % cv)
        if wv is not None:
            l = texts.total(E, S, inner)
            if S.ctx.ge0(psub(l, wv)): pass
            elif S.ctx.ge0(psub(wv, l)):
                if "0" in fl: raise texts.Unclear("zero padding")
                inner = inner + (("fill", C(32), psub(wv, l)),) if "-" in fl else (("fill", C(32), psub(wv, l)),) + inner
            else: raise texts.Unclear("a field width")
        for t in inner: add(t)
    add(fmt[pos:])
    return tuple(out), n
def lenval(E, S, f, args, x, key=None):
    """the length produced by a format as a value"""
    s = E.cstr(f) if isinstance(f, Ptr) else None
    E.printed = None
    if s is not None and E.texts:
        import texts
        try:
            E.printed, n = fmttext(E, S, s, args, x)
            return n
        except (texts.Unclear, IndexError): pass
    if s is None:
        alive(E, S, f)
        r = A(mk("ext", "vlen", (f.base if isinstance(f, Ptr) else f, S.st.get(f.base) if isinstance(f, Ptr) else None, tuple(args)), 32))
        S.ctx = S.ctx.addf([r, psub(C((1 << 31) - 1), r)])
        return r
    ex, lo, up = fmtlen(E, S, s, args, x)
    if ex is not None: return ex
    r = A(mk("ext", "flen", (s, tuple(a for a in args), S.fresh("flen", E.key(x)) if any(isinstance(a, Ptr) for a in args) and key is None else 0), 32))
    S.ctx = S.ctx.addf([psub(r, lo)] + ([psub(up, r)] if up is not None else []))
    return r
def outpiece(E, S, d, n, x, limit=None):
    d = E.resolve(S, d)
    if limit is None: putstr(E, S, d, n, x, text=E.printed); return
    if limit.const() == 0: return
    r = S.ctx.implies(ge0(psub(psub(limit, ONE), n)))
    if r is None: raise Fork(ge0(psub(psub(limit, ONE), n)))
    putstr(E, S, d, n if r else psub(limit, ONE), x, text=E.printed if r else None)
def va_of(E, S, ap):
    for fr in reversed(S.frames):
        if fr.f.vararg: return list(fr.va)
    return []
@model("sprintf")
def m_sprintf(E, S, a, x):
    n = lenval(E, S, a[1], a[2:], x)
    outpiece(E, S, a[0], n, x)
    return [Out(n)]
@model("snprintf")
def m_snprintf(E, S, a, x):
    n = lenval(E, S, a[2], a[3:], x, key=1)
    outpiece(E, S, a[0], n, x, a[1])
    return [Out(n)]
@model("vsprintf")
def m_vsprintf(E, S, a, x):
    n = lenval(E, S, a[1], va_of(E, S, a[2]), x, key=1)
    outpiece(E, S, a[0], n, x)
    return [Out(n)]
@model("vsnprintf")
def m_vsnprintf(E, S, a, x):
    n = lenval(E, S, a[2], va_of(E, S, a[3]), x, key=1)
    outpiece(E, S, a[0], n, x, a[1])
    return [Out(n)]
def stderr_ptr(p):
    return isinstance(p, Ptr) and any(isinstance(s, T) and s.op == "global" and s.a[0] in ("stderr", "stdout") for s in subterms(p.base))
@model("fprintf", "vfprintf", "fputs", "fputc", "putc", "fflush", "fwrite_unlocked")
def m_fprintf(E, S, a, x):
    nm = name_of(x)
    fp = a[1] if nm in ("fputs", "putc") else a[1] if nm == "fputc" else a[0]
    for p in a: alive(E, S, p)
    if isinstance(fp, Ptr) and fp.base is NULLB: E.report("null", "%s to a null stream" % nm); raise Stop()
    if stderr_ptr(fp) and nm != "fflush": spoken(S)
    if nm == "fprintf" and E.cstr(a[1]) is not None:
        try: fmtlen(E, S, E.cstr(a[1]), a[2:], x)
        except Unsupported: pass
    if stderr_ptr(fp): return [Out(ext(E, S, x, "out", 32))]
    E.written(S, nm, fp, a, x)
    if nm in ("fflush", "fprintf", "fputs"): 
        return [Out(C(-1), (), both(fails(nm + " fails") if nm != "fflush" else None, inerror(fp, nm == "fflush" and "flush")), nm + " fails"), Out(ZERO if nm == "fflush" else ONE)]
    return [Out(ext(E, S, x, "out", 32))]
def inerror(fp, how=True):
    """the stream's error indicator is set (what could not be flushed cannot be written by fclose either)"""
    def eff(T_):
        if isinstance(fp, Ptr): T_.tags[("err", fp.base)] = how or True
    return eff
@model("ferror")
def m_ferror(E, S, a, x):
    alive(E, S, a[0])
    if isinstance(a[0], Ptr) and S.tags.get(("err", a[0].base)): return [Out(ONE)]
    if isinstance(a[0], Ptr) and S.tags.get(("reads", a[0].base)): return [Out(ZERO), Out(ONE)]
    return [Out(ZERO)] if isinstance(a[0], Ptr) and a[0].base.op == "obj" else [Out(ext(E, S, x, "ferror", 32))]
@model("perror", "puts", "printf", "vprintf", "putchar")
def m_perror(E, S, a, x):
    for p in a: alive(E, S, p)
    spoken(S)
    if name_of(x) == "printf" and E.cstr(a[0]) is not None:
        try: fmtlen(E, S, E.cstr(a[0]), a[1:], x)
        except Unsupported: pass
    return [Out(ext(E, S, x, "out", 32) if x.ty.k != "void" else None)]
@model("strerror", "zip_strerror", "dlerror", "gai_strerror", "zip_error_strerror")
def m_strerror(E, S, a, x):
    for p in a: alive(E, S, p)
    return [Out(mkptr(mk("cstr", "an error message")))]
@model("__errno_location")
def m_errno(E, S, a, x):
    b = mk("errno"); 
    S.st.d[b] = mk("minit", mk("ext", "errno", S.fresh("errno", E.key(x))))
    return [Out(mkptr(b))]

# ---------------------------------------------------------------- files
@model("fopen", "tmpfile", "fdopen")
def m_fopen(E, S, a, x):
    nm = name_of(x)
    if nm == "fopen": slen(E, S, a[0], x); slen(E, S, a[1], x)
    b = new(E, S, x, STREAM)
    return [Out(NULL, (), fails(nm + " fails"), nm + " fails"), Out(mkptr(b), (), both(hold(b, STREAM), E.opened(S, b, a)))]
@model("fclose")
def m_fclose(E, S, a, x):
    eff = released(E, S, a[0], STREAM, "fclose")
    w = E.writing(S, a[0])
    err = isinstance(a[0], Ptr) and S.tags.pop(("err", a[0].base), None); isinstance(a[0], Ptr) and S.tags.pop(("reads", a[0].base), None)
    if err == "flush": return [Out(C(-1), (), both(eff, fails("fclose fails")), "fclose fails")]
    return ([Out(C(-1), (), both(eff, fails("fclose fails")), "fclose fails")] if w else []) + [Out(ZERO, (), eff)]
@model("fread", "fread_unlocked")
def m_fread(E, S, a, x):
    alive(E, S, a[3])
    n = pmul(a[1], a[2])
    E.touch(S, "store", a[0], n, x)
    if isinstance(a[0], Ptr) and a[0].base is not NULLB: E.havoc(S, a[0], n, "file")
    r = ext(E, S, x, "fread")
    if isinstance(a[3], Ptr): S.tags[("reads", a[3].base)] = True
    return [Out(a[2], (), E.consumed(S, a[3], a[0], n, n)), Out(r, [ge0(r), ge0(psub(psub(a[2], ONE), r))], both(fails("fread is short"), E.consumed(S, a[3], a[0], n, pmul(a[1], r))), "fread is short")]
@model("fwrite")
def m_fwrite(E, S, a, x):
    alive(E, S, a[3])
    n = pmul(a[1], a[2])
    E.touch(S, "load", a[0], n, x)
    if stderr_ptr(a[3]): spoken(S); return [Out(a[2])]
    E.written(S, "fwrite", a[3], a, x)
    r = ext(E, S, x, "fwrite")
    return [Out(a[2]), Out(r, [ge0(r), ge0(psub(psub(a[2], ONE), r))], both(fails("fwrite is short"), inerror(a[3])), "fwrite is short")]
@model("fgets")
def m_fgets(E, S, a, x):
    alive(E, S, a[2])
    n = a[1]
    E.touch(S, "store", a[0], n, x)
    r = ext(E, S, x, "line")
    d = E.resolve(S, a[0])
    def eff(T_):
        E.havoc(T_, d, n, "line")
        T_.known[d.base] = T_.known.get(d.base, frozenset()) | {(padd(d.off, r), 0)}
    return [Out(NULL), Out(d, [ge0(psub(r, ONE)), ge0(psub(psub(n, ONE), r))], eff)]
@model("getline")
def m_getline(E, S, a, x): raise Unsupported("getline")
@model("fgetc", "getc", "fseek", "ftell", "rewind", "feof", "fileno", "clearerr", "fseeko", "ftello", "ungetc")
def m_fgetc(E, S, a, x):
    for p in a: alive(E, S, p)
    if x.ty.k == "void": return [Out(None)]
    r = ext(E, S, x, name_of(x), x.ty.bits)
    if name_of(x) in ("fgetc", "getc"): S.ctx = S.ctx.addf([padd(r, ONE), psub(C(255), r)])
    return [Out(r)]
@model("sscanf", "fscanf", "__isoc99_sscanf", "__isoc99_fscanf", "__isoc23_sscanf")
def m_sscanf(E, S, a, x):
    for p in a: alive(E, S, p)
    if "sscanf" in name_of(x): slen(E, S, a[0], x)
    f = E.cstr(a[1])
    if f is None: raise Unsupported("scanf with unknown format")
    dirs = [m for m in re.finditer(r"%(\*)?(\d+)?(hh|h|ll|l|z|j|L)?(\[[^\]]*\]|[diouxXeEfgcspn])", f)]
    live = [m for m in dirs if not m.group(1)]
    k = ext(E, S, x, "scanned", 32)
    outs = []
    for n in range(-1, len([m for m in live if m.group(4) != "n"]) + 1):
        def eff(T_, n=n):
            for i, m in enumerate(live):
                p = E.resolve(T_, a[2 + i])
                w, ln, cv = m.group(2), m.group(3), m.group(4)
                if i >= n: break
                if cv in "di" or cv in "ouxX" or cv == "n":
                    sz = {"hh": 1, "h": 2, None: 4, "l": 8, "ll": 8, "z": 8, "j": 8}[ln]
                    E.touch(T_, "store", p, C(sz), x)
                    v = ext(E, T_, x, "scan", sz * 8)
                    if sz < 8: T_.ctx = T_.ctx.addf([padd(v, C(1 << (8 * sz - 1))), psub(C((1 << (8 * sz - 1)) - 1), v)])
                    E.store_at(T_, p, "i%d" % (8 * sz), v)
                elif cv in "eEfg":
                    sz = 8 if ln == "l" else 4
                    E.touch(T_, "store", p, C(sz), x)
                    E.store_at(T_, p, "f%d" % (8 * sz), mk("ext", "scanf", T_.fresh("scanf", E.key(x))))
                elif cv == "c":
                    E.touch(T_, "store", p, C(int(w or 1)), x); E.havoc(T_, p, C(int(w or 1)), "scan")
                else:
                    if w: 
                        E.touch(T_, "store", p, C(int(w) + 1), x); E.havoc(T_, p, C(int(w) + 1), "scan")
                        q = ext(E, T_, x, "scanl"); T_.ctx = T_.ctx.addf([q, psub(C(int(w)), q)])
                    else:
                        src = slen(E, T_, a[0], x) if "sscanf" in name_of(x) else ext(E, T_, x, "scanl")
                        E.touch(T_, "store", p, padd(src, ONE), x); E.havoc(T_, p, padd(src, ONE), "scan")
                        q = ext(E, T_, x, "scanl"); T_.ctx = T_.ctx.addf([q, psub(src, q)])
                    T_.known[p.base] = T_.known.get(p.base, frozenset()) | {(padd(p.off, q), 0)}
        outs.append(Out(C(n), (), eff))
    return outs
@model("access", "unlink", "remove", "mkdir", "stat", "fstat", "rename", "isatty")
def m_access(E, S, a, x):
    for p in a: alive(E, S, p)
    for p in a[1:]:
        if isinstance(p, Ptr) and p.base.op == "alloca": S.st.d[p.base] = mk("minit", mk("ext", "stat", S.fresh("stat", E.key(x))))
    return [Out(ZERO), Out(C(-1), (), None, name_of(x) + " fails")]
@model("open", "open64")
def m_open(E, S, a, x):
    slen(E, S, a[0], x)
    f = mk("fd", S.fresh("fd", E.key(x))); E.acq[f] = "%s:%s" % (E.short(x.file), x.line)
    def eff(T_): T_.res[f] = (FD, HELD)
    return [Out(C(-1), (), fails("open fails"), "open fails"), Out(A(f), [ge0(A(f)), ge0(psub(C((1 << 31) - 1), A(f)))], eff)]
@model("close")
def m_close(E, S, a, x):
    eff = released(E, S, a[0], FD, "close")
    return [Out(ZERO, (), eff)]
def fdalive(E, S, p):
    for at in p.atoms():
        r = S.res.get(at)
        if at.op == "fd" and r is not None and r[1] == GONE: E.report("use", "a descriptor is used after close"); raise Stop()
@model("lseek", "lseek64")
def m_lseek(E, S, a, x):
    fdalive(E, S, a[0])
    r = ext(E, S, x, "seek")
    return [Out(C(-1), (), fails("lseek fails"), "lseek fails"), Out(r, [ge0(r)])]
@model("read", "pread")
def m_read(E, S, a, x):
    fdalive(E, S, a[0])
    E.touch(S, "store", a[1], a[2], x); E.havoc(S, a[1], a[2], "file")
    r = ext(E, S, x, "read")
    return [Out(a[2]), Out(r, [ge0(padd(r, ONE)), ge0(psub(psub(a[2], ONE), r))], fails("read is short"), "read is short")]
@model("mmap", "mmap64")
def m_mmap(E, S, a, x):
    n = a[1]
    if a[4].atoms(): fdalive(E, S, a[4])
    outs = [Out(mkptr(mk("i2p", C(-1))), (), fails("mmap fails"), "mmap fails")]
    if S.ctx.implies(ge0(psub(n, ONE))) is not False:
        b = new(E, S, x, MAP)
        def eff(T_):
            T_.res[b] = (MAP, HELD); T_.obj[b] = (n, 4096, MAP); T_.known.pop(b, None)
            T_.st.d[b] = mk("minit", mk("ext", "data", T_.fresh("map", E.key(x))))
        outs.append(Out(mkptr(b), [ge0(psub(n, ONE))], eff))
    return outs
@model("munmap")
def m_munmap(E, S, a, x):
    eff = released(E, S, a[0], MAP, "munmap")
    o = S.obj.get(a[0].base)
    if o is not None and S.ctx.implies(eq0(psub(o[0], a[1]))) is False: E.report("mismatch", "munmap of %s bytes of a mapping of %s" % (show(a[1], 3), show(o[0], 3)))
    return [Out(ZERO, (), eff)]

# ---------------------------------------------------------------- archives
@model("zip_open")
def m_zip_open(E, S, a, x):
    slen(E, S, a[0], x)
    b = new(E, S, x, ARCH)
    def eff(T_): T_.tags[("added", b)] = ZERO if (a[1].const() or 0) & 8 else A(mk("ext", "have", b))
    def lost(T_): T_.tags["lost"] = True
    return [Out(NULL, (), both(fails("zip_open fails"), lost), "zip_open fails"), Out(mkptr(b), (), both(hold(b, ARCH), eff, E.opened(S, b, a)))]
def archive_gone(E, S, b, close):
    def eff(T_):
        for kind, y in T_.own.get(b, ()):
            if kind == "name" and y in T_.res: T_.res[y] = (T_.res[y][0], GONE)
            if kind == "borrow" and close:
                r = T_.res.get(y)
                if r is not None and r[1] == GONE:
                    E.S = T_; E.report("use", "the archive is written from a buffer that was released")
        k = T_.tags.pop(("added", b), None)
        if close and isinstance(k, P): T_.tags["written"] = padd(T_.tags.get("written", ZERO), k)
    return eff
@model("zip_close")
def m_zip_close(E, S, a, x):
    eff = released(E, S, a[0], ARCH, "zip_close", null_ok=True)
    if eff is None: return [Out(C(-1))]
    b = a[0].base
    return [Out(ZERO, (), both(eff, archive_gone(E, S, b, True))), Out(C(-1), (), both(fails("zip_close fails"), lambda T_: T_.tags.update(lost=True)), "zip_close fails")]
@model("zip_discard")
def m_zip_discard(E, S, a, x):
    eff = released(E, S, a[0], ARCH, "zip_discard", null_ok=True)
    if eff is None: return [Out(None)]
    return [Out(None, (), both(eff, archive_gone(E, S, a[0].base, False)))]
@model("zip_source_buffer", "zip_source_buffer_create")
def m_zip_source(E, S, a, x):
    if name_of(x) == "zip_source_buffer": d, n, fr = a[1:4]
    else: d, n, fr = a[0:3]
    E.touch(S, "load", d, n, x)
    b = new(E, S, x, SOURCE)
    outs = [Out(NULL, (), fails("zip_source_buffer fails"), "zip_source_buffer fails")]
    db = d.base
    if fr.const() == 0: outs.append(Out(mkptr(b), (), hold(b, SOURCE, own=(("borrow", db),))))
    else:
        eff = released(E, S, d, HEAP, "zip_source_buffer", status=MOVED)
        outs.append(Out(mkptr(b), (), both(hold(b, SOURCE, own=(("data", db),)), eff)))
    if E.texts: S.tags[("source", b)] = (S.st.get(db), d.off, n)
    return outs
@model("zip_source_free")
def m_zip_source_free(E, S, a, x):
    eff = released(E, S, a[0], SOURCE, "zip_source_free", null_ok=True)
    if eff is None: return [Out(None)]
    ow = S.own.get(a[0].base, ())
    def eff2(T_):
        for k, y in ow:
            if k == "data": T_.res[y] = (HEAP, GONE)
    return [Out(None, (), both(eff, eff2))]
@model("zip_file_add", "zip_add")
def m_zip_file_add(E, S, a, x):
    z, nm, src = a[:3]
    alive(E, S, z, nm, src)
    if isinstance(nm, Ptr) and nm.base is NULLB or isinstance(src, Ptr) and src.base is NULLB:      # rejected by the library
        return [Out(C(-1), (), fails("zip_file_add fails"), "zip_file_add fails")]
    n = slen(E, S, nm, x)
    eff = released(E, S, src, SOURCE, "zip_file_add", status=MOVED)
    k = S.tags.get(("added", z.base), ZERO)
    E.entry_added(S, z, nm, src, x)
    def eff2(T_):
        T_.own[z.base] = T_.own.get(z.base, ()) + T_.own.get(src.base, ())
        T_.tags[("added", z.base)] = padd(k, ONE)
    return [Out(C(-1), (), fails("zip_file_add fails"), "zip_file_add fails"), Out(k, (), both(eff, eff2))]
@model("zip_set_file_compression", "zip_delete", "zip_file_set_mtime", "zip_set_archive_comment", "zip_file_set_external_attributes", "zip_rename")
def m_zip_set(E, S, a, x):
    alive(E, S, a[0])
    nm = name_of(x)
    return [Out(ZERO), Out(C(-1), (), fails(nm + " fails"), nm + " fails")]
@model("zip_get_num_entries", "zip_get_num_files")
def m_zip_num(E, S, a, x):
    alive(E, S, a[0])
    if E.entries is not None: return [Out(C(E.entries))]
    r = A(mk("ext", "entries", a[0].base, 64))
    if r not in S.ctx.facts: S.ctx = S.ctx.addf([r])
    return [Out(r)]
@model("zip_get_name")
def m_zip_name(E, S, a, x):
    alive(E, S, a[0])
    z = a[0].base
    b = mk("obj", "entry name", (z, a[1], S.fresh("zname", E.key(x))))
    n = A(mk("ext", "namelen", b, 64))
    L = A(mk("slen", mk("minit", mk("ext", "name", (z, a[1]))), ZERO))
    def eff(T_):
        T_.res[b] = (NAME, "lent"); T_.obj[b] = (padd(n, ONE), 1, NAME)
        T_.st.d[b] = mk("minit", mk("ext", "name", (z, a[1]))); T_.known[b] = frozenset({(n, 0), (L, 0)})
        T_.ctx = T_.ctx.addf([L, psub(n, L)])
        T_.own[z] = T_.own.get(z, ()) + (("name", b),)
        E.entry_named(T_, a, True)
    return [Out(NULL, (), lambda T_: E.entry_named(T_, a, False), "zip_get_name fails"), Out(mkptr(b), [ge0(n), ge0(psub(C(65535), n))], eff)]
@model("zip_fopen_index", "zip_fopen")
def m_zip_fopen(E, S, a, x):
    alive(E, S, a[0])
    b = new(E, S, x, ENTRY)
    def eff(T_): T_.tags[("entry", b)] = a[1] if isinstance(a[1], P) else ZERO
    return [Out(NULL, (), fails("zip_fopen fails"), "zip_fopen fails"), Out(mkptr(b), (), both(hold(b, ENTRY), E.entry_opened(S, b, a)))]
@model("zip_fread")
def m_zip_fread(E, S, a, x):
    alive(E, S, a[0])
    if isinstance(a[0], Ptr) and a[0].base is NULLB: E.report("null", "zip_fread of a null entry"); raise Stop()
    E.touch(S, "store", a[1], a[2], x)
    if isinstance(a[1], Ptr) and a[1].base is not NULLB: E.havoc(S, a[1], a[2], "entry")
    r = ext(E, S, x, "zfread")
    return [Out(a[2], (), E.consumed(S, a[0], a[1], a[2], a[2])), Out(r, [ge0(padd(r, ONE)), ge0(psub(psub(a[2], ONE), r))], both(fails("zip_fread is short"), E.consumed(S, a[0], a[1], a[2], r)), "zip_fread is short")]
@model("zip_fclose")
def m_zip_fclose(E, S, a, x):
    eff = released(E, S, a[0], ENTRY, "zip_fclose")
    return [Out(ZERO, (), eff)]
@model("zip_stat_index", "zip_stat", "zip_stat_init", "zip_error_init", "zip_error_init_with_code", "zip_error_fini", "zip_get_error")
def m_zip_stat(E, S, a, x):
    for p in a: alive(E, S, p)
    for p in a:
        if isinstance(p, Ptr) and p.base.op == "alloca": S.st.d[p.base] = mk("minit", mk("ext", "zstat", S.fresh("zstat", E.key(x))))
    if x.ty.k == "void": return [Out(None)]
    return [Out(ZERO), Out(C(-1), (), fails("zip_stat fails"), "zip_stat fails")] if x.ty.k == "int" else [Out(E.opaque(S, x, "zstat"))]

# ---------------------------------------------------------------- libraries, process, time
@model("dlopen")
def m_dlopen(E, S, a, x):
    if isinstance(a[0], Ptr) and a[0].base is not NULLB: slen(E, S, a[0], x)
    b = new(E, S, x, DL)
    return [Out(NULL, (), fails("dlopen fails"), "dlopen fails"), Out(mkptr(b), (), hold(b, DL))]
@model("dlsym")
def m_dlsym(E, S, a, x):
    alive(E, S, a[0]); slen(E, S, a[1], x)
    return [Out(NULL, (), fails("dlsym fails"), "dlsym fails"), Out(mkptr(mk("func", "an activation of a loaded library")))]
@model("dlclose")
def m_dlclose(E, S, a, x):
    return [Out(ZERO, (), released(E, S, a[0], DL, "dlclose"))]
@model("__assert_fail", "abort")
def m_assert(E, S, a, x):
    s = E.cstr(a[0]) if a and isinstance(a[0], Ptr) else None
    E.report("abort", "the process is aborted%s" % (" (assertion %s)" % s if s else ""), extra=S.tags.get("silent"))
    raise Stop()
@model("exit", "_exit")
def m_exit(E, S, a, x):
    E.report("abort", "the process is ended", extra=S.tags.get("silent")); raise Stop()
@model("time", "rand", "random", "clock", "getpid")
def m_time(E, S, a, x):
    r = ext(E, S, x, name_of(x), x.ty.bits if x.ty.k == "int" else 64)
    if name_of(x) in ("rand", "random"): S.ctx = S.ctx.addf([r, psub(C(2147483647), r)])
    for p in a:
        if isinstance(p, Ptr) and p.base is not NULLB: E.touch(S, "store", p, C(8), x); E.store_at(S, p, "i64", r)
    return [Out(r)]
@model("gettimeofday", "clock_gettime")
def m_gtod(E, S, a, x):
    for p in a:
        if isinstance(p, Ptr) and p.base is not NULLB: E.touch(S, "store", p, C(16), x); E.havoc(S, p, C(16), "time")
    return [Out(ZERO)]
@model("srand", "srandom", "atexit", "usleep", "sleep", "sigaction", "signal")
def m_srand(E, S, a, x): return [Out(ZERO if x.ty.k == "int" else None if x.ty.k == "void" else NULL)]
@model("omp_get_num_threads", "omp_get_max_threads", "omp_get_thread_num")
def m_omp(E, S, a, x): return [Out(ONE if "thread_num" not in name_of(x) else ZERO)]
@model("llvm.va_start", "llvm.va_end", "llvm.va_copy")
def m_va(E, S, a, x): return [Out(None)]
