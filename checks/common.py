"""Shared machinery of the checks: modules per instruction set, obligations, evidence, verdicts."""
import sys, os, json, time, random
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "engine"))
import build, interp, evalterm
from terms import *
from linear import Ctx, add_atom_fact
from memory import *
from interp import Interp, St, Unsupported
from evalterm import Ev, Oracle, Unknown, OutOfSpec, close_to

ISAS = ("avx512", "avx2", "avx", "sse")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
REPO = build.REPO

class Anchor(Exception):
    """something the check needs in order to say anything is gone"""

class Check:
    def __init__(self, pid, title=""):
        self.pid = pid; self.t0 = time.time()
        self.obl = []            # obligations: dict(name, status, how, where)
        self.viol = []           # dict(key, where, what, ...)
        self.notes = []
        self.known = load_known(pid)
        self.files = set(); self.functions = set(); self.rule = ""
        self.floor = 1
    def ok(self, name, how="proved", where=None): self.obl.append(dict(name=name, status="discharged", how=how, where=where))
    def undecided(self, name, why, where=None): self.obl.append(dict(name=name, status="undecided", how=str(why)[:400], where=where))
    def violate(self, name, where, what, key=None, **kw):
        key = key or name
        self.obl.append(dict(name=name, status="violated", how=str(what)[:600], where=where))
        d = dict(key=key, obligation=name, where=where, what=what); d.update(kw)
        self.viol.append(d)
    def finish(self):
        und = [o for o in self.obl if o["status"] == "undecided"]
        dis = [o for o in self.obl if o["status"] == "discharged"]
        new, known = [], []
        for v in self.viol:
            k = next((k for k in self.known if k["key"] == v["key"]), None)
            (known if k else new).append(v)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level="other",
                  coverage=dict(
                      explanation="Static analysis of the source as compiled to LLVM IR: " + self.rule,
                      obligations=len(self.obl), discharged=len(dis), undecided=len(und), violated=len(self.viol), known=len(known),
                      how={h: sum(1 for o in dis if o["how"] == h) for h in sorted({o["how"] for o in dis})},
                      functions=sorted(self.functions)[:400], notes=self.notes[:40],
                      undecided_list=[dict(name=o["name"], why=o["how"]) for o in und][:40],
                      samples=[dict(name=o["name"], how=o["how"], where=o["where"]) for o in dis[:60]]),
                  wall_s=round(time.time() - self.t0, 2), violations=[v for v in new])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path, "w") as f: json.dump(ev, f, indent=1, default=str)
        for v in known: print("KNOWN-FINDING: property=%s %s" % (self.pid, v["what"]))
        print("%s: %d obligations, %d discharged, %d undecided, %d violated (%.1fs)" % (self.pid, len(self.obl), len(dis), len(und), len(self.viol), time.time() - self.t0))
        for o in und[:12]: print("  undecided: %s: %s" % (o["name"], o["how"][:300]))
        if new:
            rp = os.path.join(VERIF, "evidence", self.pid + ".violation.json")
            with open(rp, "w") as f: json.dump(new, f, indent=1, default=str)
            for v in new[:10]:
                print("  %s: %s: %s" % (v["where"], v["obligation"], v["what"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if len(dis) + len(known) < self.floor:
            print("error: only %d obligations decided, at least %d expected" % (len(dis), self.floor))
            return 2
        return 0

def _job(a):
    pid, fnc, args = a
    ch = Check(pid)
    try: fnc(ch, *args); err = None
    except Anchor as x: err = ("anchor", str(x))
    except build.BuildError as x: err = ("build", str(x))
    except BaseException as x:
        import traceback
        err = ("crash", traceback.format_exc())
    return ch.obl, ch.viol, ch.notes, ch.functions, err
def parallel(ch, jobs, mods=(), workers=None):
    """run (function, arg, ...) jobs, each on a fresh Check, in worker processes and merge their results (mods: modules to load before)"""
    for m in mods: m()
    import multiprocessing as mp, gc
    gc.collect(); gc.freeze()
    n = min(workers or 8, len(jobs))
    with mp.get_context("fork").Pool(n, maxtasksperchild=1) as pool:
        for obl, viol, notes, fns, err in pool.imap(_job, [(ch.pid, j[0], j[1:]) for j in jobs]):
            ch.obl += obl; ch.viol += viol; ch.notes += notes; ch.functions |= fns
            if err is not None:
                if err[0] == "anchor": raise Anchor(err[1])
                if err[0] == "build": raise build.BuildError(err[1])
                raise RuntimeError(err[1])

def load_known(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            l = l.strip()
            if l.startswith("known:"):
                d = dict(x.split("=", 1) for x in l.split("|")[0].split()[1:])
                if d.get("property") == pid: out.append(d)
    except FileNotFoundError: pass
    return out

# ------------------------------------------------------------------ modules
def module(isa="avx512", **kw):
    return build.module(isa, **kw)
def where(f, inst=None):
    if inst is not None and getattr(inst, "file", None): return "%s:%s (%s)" % (rel(inst.file), inst.line, f.name if f else "?")
    for b in f.blocks:
        for i in b.insts:
            if getattr(i, "file", None): return "%s (%s)" % (rel(i.file), f.name)
    return f.name
def rel(p):
    return os.path.relpath(p, REPO) if p and p.startswith(REPO) else p
def fn(mod, name):
    f = mod.funcs.get(name)
    if f is None or f.decl: raise Anchor("function %s not found" % name)
    return f
def cstr(s): return mkptr(mk("cstr", s))

def symargs(f, spec):
    """symbolic arguments by position: 'i:name' int, 'p:name' pointer, 'f:name' float"""
    if len(spec) != len(f.args): raise Anchor("%s takes %d arguments, %d expected" % (f.name, len(f.args), len(spec)))
    out = []
    for a, s in zip(f.args, spec):
        k, n = s.split(":")
        tk = tkey(a.ty)
        want = {"i": ("i32", "i64"), "p": ("ptr",), "f": ("f32",)}[k]
        if tk not in want: raise Anchor("%s: argument %s has an unexpected type" % (f.name, n))
        out.append(isym(n) if k == "i" else mkptr(sym(n)) if k == "p" else sym(n))
    return out

def resolve(mod, getter, name):
    """the function a registry returns for a constant name"""
    g = fn(mod, getter)
    I = Interp(mod, hooks={"get_activation_func_dynamic": lambda *a: mkptr(mk("dynsym")), "get_activation_derivative_dynamic": lambda *a: mkptr(mk("dynsym"))})
    r, _ = I.run(g, [cstr(name)])
    return conc_ptr(r)
def conc_ptr(r):
    """resolve a pointer term without free symbols to a concrete base"""
    if isinstance(r, Ptr): return r
    try:
        v = Ev(Oracle(1)).ev(r)
        if v[0][0] in ("func", "global"): return mkptr(mk(v[0][0], v[0][1]), C(v[1]))
        if v[0][0] == "null": return NULL
    except Unknown: pass
    return r
def resolve_fn(mod, getter, name):
    r = resolve(mod, getter, name)
    if isinstance(r, Ptr) and r.base.op == "func" and r.base.a[0] in mod.funcs: return mod.funcs[r.base.a[0]]
    raise Anchor("%s(\"%s\") does not resolve to a function" % (getter, name))

# ------------------------------------------------------------------ comparisons
class Orc(Oracle):
    """oracle with integer symbols given by name"""
    pass

def samplers(rng, n_lo=0, big=70):
    """lengths: small ones, around SIMD widths, larger"""
    base = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 70]
    return [n for n in base if n >= n_lo]

def critical(terms, names, lo=34, hi=70000, most=10):
    """sizes around the constants the summary compares with: extra assignments for identity testing"""
    thr = {n: set() for n in names}
    seen = set()
    for t in terms:
        if not isinstance(t, Base): continue
        for s in subterms(t, seen):
            if not (isinstance(s, T) and s.op in ("ge0", "eq0") and isinstance(s.a[0], P)): continue
            c = 0
            for mo, k in s.a[0].m:
                if not mo: c = k
            if abs(c) < lo: continue
            for mo, k in s.a[0].m:
                at = [a.a[0] for a in mo if a.op == "sym"]
                if not at or len(at) != len(mo) or any(x not in thr for x in at): continue
                v = abs(c) // abs(k)
                if len(at) == 2: v = int(math.isqrt(v))
                if len(at) > 2: continue
                for x in at:
                    for d in (-1, 0, 1, 2):
                        if lo <= v + d <= hi: thr[x].add(v + d)
    out = []
    for i, n in enumerate(names):
        for v in sorted(thr[n]): out.append({m: (v if m == n else (2 + (i + j) % 3)) for j, m in enumerate(names)})
    pair = sorted({v for n in names for v in thr[n] if v <= 400})
    out += [{m: v for m in names} for v in pair[-2:]] if len(names) <= 3 else []
    return out[:most] if len(out) <= most else out[::max(1, len(out) // most)][:most]
def some(l, big):
    """all elements, or some of them for the extra large assignments"""
    l = list(l)
    if not big or len(l) <= 60: return l
    return l[:10] + l[-14:] + l[10:-14:max(1, (len(l) - 24) // 36)]

def compare_at(ch, name, st, base, offs, spec, asgs, floats=None, rel=1e-5, ab=1e-6, modes=("normal", "special", "wide"), where=None,
               tk="f32", mkoracle=None, scale=None, key=None, what=None):
    """content of object base at concrete offsets vs specification term, at the given assignments.
    offs: function(assignment dict name->int) -> list of (offset, spec env dict). Returns True if all agree"""
    chain = st.get(base)
    n = 0
    extra = critical([chain], sorted(asgs[0])) if asgs else []
    for ai, asg in enumerate(list(asgs) + extra):
        big = ai >= len(asgs)
        ints = {sym(k): v for k, v in asg.items()}
        for mode in (modes if ai % 2 == 0 and not big else modes[:1]):
            o = (mkoracle or Oracle)((SEED, name, ai), mode)
            e = Ev(o, ints)
            for off, senv in some(offs(asg), big):
                try:
                    got = e.mread(chain, off, tk, {})
                    es = Ev(o, {**ints, **{sym(k): v for k, v in senv.items()}})
                    es.o = o
                    want = es.ev(spec)
                except Unknown as x:
                    ch.undecided(name, "cannot evaluate the summary: %s" % x, where); return None
                except OutOfSpec as x:
                    ch.violate(name, where, "%s (with %s)" % (x, asg), key=key); return False
                n += 1
                if not close_to(got, want, rel, ab, scale(e) if scale else 0.0):
                    ch.violate(name, where, "%s: with %s the summary of the code gives %r where the specification gives %r%s" % (
                        what or name, {**asg, **senv}, got, want, " (float mode %s)" % mode), key=key)
                    return False
    return True

def elementwise(ch, name, f, st, base, spec, q, facts, asgs, count, rel=1e-5, ab=1e-6, modes=("normal", "special", "wide"), tk="f32", es=4,
                mkoracle=None, key=None, size=None, extent=None, scale=None):
    """object `base` holds spec(q) for every q in [0, count(q's bound)) and is untouched elsewhere.
    q: sym name used in spec; facts: polynomials >= 0 (conditions on q and the sizes);
    count: function(asg) -> number of elements; extent: elements before/after to look at for stray writes"""
    w = where(f)
    ctx = Ctx(facts)
    tk_ = tk
    try:
        got = read(st.get(base), pscale(isym(q), es), tk, ctx)
    except Exception as x:
        got = None
    good = 2
    if got is spec or (got is not None and nf_equal(got, spec, ctx)):
        ch.ok(name + ": value", "equal to the specification for every size", w)
    else:
        r = compare_at(ch, name + ": value", st, base, lambda a: [(es * i, {q: i}) for i in range(count(a))], spec, asgs, rel=rel, ab=ab, modes=modes, where=w, tk=tk, mkoracle=mkoracle, key=key, scale=scale)
        if r: ch.ok(name + ": value", "summary agrees with the specification (identity testing)", w)
    # nothing outside
    init = mk("minit", base) if size is None else None
    chain = st.get(base)
    sz = size or (lambda a: count(a))
    orig = wrap(mk("ld", base, pscale(isym(q), es), tk), tk)
    r = compare_at(ch, name + ": outside", st, base, lambda a: [(es * i, {q: i}) for i in list(range(-18, 0)) + list(range(sz(a), sz(a) + 18))], orig, asgs, modes=("normal",), where=w, tk=tk, mkoracle=mkoracle, key=key,
                   what="element outside the result range is overwritten")
    if r: ch.ok(name + ": nothing outside [0,n) written", "summary agrees with the specification (identity testing)", w)

def untouched(ch, name, f, st, allowed):
    """no object other than the allowed bases (and locals) is modified"""
    bad = [b for b, c in st.d.items() if b not in allowed and b.op not in ("alloca", "obj") and c is not st.root(b)]
    bad = [b for b in bad if not _noop(st.d[b], b)]
    if bad: ch.violate(name + ": only the result is written", where(f), "also modifies %s" % ", ".join(show(b, 3) for b in bad))
    else: ch.ok(name + ": only the result is written", "store effects", where(f))
def _noop(chain, b):
    ws = writes(chain, {mk("minit", b)})
    return ws == []

# ------------------------------------------------------------------ float normal form
import nform
def nf_equal(x, y, ctx): return nform.equal(x, y, ctx)

def compare_val(ch, name, got, spec, asgs, modes=("normal", "special", "wide"), rel=1e-5, ab=1e-6, where=None, mkoracle=None, key=None, what=None, facts=(), reps=1):
    if got is spec or nf_equal(got, spec, Ctx(facts)):
        ch.ok(name, "equal to the specification for every size", where); return True
    extra = critical([got], sorted(asgs[0])) if asgs and isinstance(got, Base) else []
    for ai, asg in enumerate(list(asgs) + extra):
        ints = {sym(k): v for k, v in asg.items()}
        for mode in modes:
            for rep in range(reps):
                o = (mkoracle or Oracle)((SEED, name, ai, rep), mode)
                try: x, y = Ev(o, ints).ev(got), Ev(o, ints).ev(spec)
                except Unknown as e: ch.undecided(name, "cannot evaluate the summary: %s" % e, where); return None
                except OutOfSpec as e: ch.violate(name, where, "%s (with %s)" % (e, asg), key=key); return False
                if not close_to(x, y, rel, ab):
                    ch.violate(name, where, "%s: with %s the summary of the code gives %r where the specification gives %r (float mode %s)" % (what or name, asg, x, y, mode), key=key)
                    return False
    ch.ok(name, "summary agrees with the specification (identity testing)", where)
    return True

# ------------------------------------------------------------------ bounds
class Bounds:
    """collects every memory access of an analysis run and decides whether it stays inside its object"""
    def __init__(self, ch, name, extents, interp=None, assume=None):
        self.ch, self.name, self.ext, self.I = ch, name, extents, interp
        self.items = {}
        self.assume = assume        # what is known of loaded values: function of the terms involved
    def __call__(self, a):
        k = (a.inst, a.base, a.off, a.kind, a.ctx.key)
        if k not in self.items: self.items[k] = a
    def extent(self, base):
        e = self.ext(base) if callable(self.ext) else self.ext.get(base)
        if e is None and self.I is not None and base in self.I.objinfo: e = self.I.objinfo[base]["size"]
        return e
    def decide(self, asgs=None, key=None):
        ch = self.ch
        byinst = {}
        for a in self.items.values():
            e = self.extent(a.base)
            if e is None: continue
            if self.assume is not None:
                x = self.assume(a)
                if x: a.ctx = Ctx(list(a.ctx.facts) + x, a.ctx.bools, a.ctx.disj)
            gs = (a.off, psub(psub(e, a.off), a.size))
            okk = all(a.ctx.ge0(g) for g in gs) or entails(a.ctx, gs)
            byinst.setdefault((a.fn, a.inst), []).append((okk, a, e))
        for (fnm, inst), l in byinst.items():
            nm = "%s: %s in %s stays inside its object" % (self.name, l[0][1].kind, fnm)
            w = "%s:%s (%s)" % (rel(inst.file), inst.line, fnm)
            bad = [x for x in l if not x[0]]
            if not bad: ch.ok(nm, "linear entailment", w); continue
            for _, a, e in bad:
                wit = witness_outside(a, e, asgs)
                if wit is not None:
                    ch.violate(nm, w, "%s of %s bytes at offset %s of %s (%s bytes) can be outside: e.g. %s" % (a.kind, show(a.size), show(a.off), show(a.base, 3), show(e), wit), key=key or ("%s:%s" % (self.name, fnm)))
                    break
            else: ch.undecided(nm, "offset %s of %s, %s bytes" % (show(bad[0][1].off), show(bad[0][1].base, 3), show(bad[0][2])), w)

def entails(ctx, goals, depth=4):
    """goals >= 0 in every case of the conditional expressions involved"""
    if depth == 0: return False
    it = None
    for p in list(ctx.facts) + list(goals):
        for mo, _ in p.m:
            for x in mo:
                for s in subterms(x):
                    if isinstance(s, T) and s.op == "ite" and isinstance(s.a[1], P) and (it is None or len(list(subterms(s))) < len(list(subterms(it)))): it = s
    if it is None: return False
    for v, c in ((it.a[1], it.a[0]), (it.a[2], bnot(it.a[0]))):
        c2 = Ctx([subst(f, {it: v}) for f in ctx.facts], (), ctx.disj).plus([c])
        g2 = [subst(g, {it: v}) for g in goals]
        if c2.ge0(C(-1)): continue
        if not all(c2.ge0(g) for g in g2) and not entails(c2, g2, depth - 1): return False
    return True
def int_atoms(p):
    return {a for a in leaves(p) if a.op in ("sym", "lv")}
def witness_outside(a, e, asgs=None, tries=300):
    """an assignment satisfying every condition collected for the access with the access outside [0,e)"""
    rng = random.Random(7)
    lits = [b for b in a.ctx.bools]
    at = int_atoms(a.off) | int_atoms(e) | int_atoms(a.size)
    for f in a.ctx.facts: at |= int_atoms(f)
    for b in lits: at |= {x for s in subterms(b) if isinstance(s, P) for mo, _ in s.m for x in mo if x.op in ("sym", "lv")}
    names = sorted(at)
    for k in range(tries):
        asg = {}
        if asgs and k % 2 == 0:
            d = rng.choice(asgs)
            asg = {sym(n): v for n, v in d.items()}
        top = rng.choice((2, 5, 17, 40))
        for x in names:
            if x not in asg: asg[x] = rng.randint(0, top)
        try:
            ev = Ev(Oracle((k, "w")), asg)
            if not all(ev.ev(f) >= 0 for f in a.ctx.facts): continue
            good = True
            for b in lits:
                if not ev.ev(b): good = False; break
            if not good: continue
            off, sz, ex = ev.ev(a.off), ev.ev(a.size), ev.ev(e)
            if sz > 0 and (off < 0 or off + sz > ex): return {str(x.a[0]): v for x, v in asg.items() if not (x.op == "lv" and False)}
        except (Unknown, OutOfSpec): return None
    return None
