"""Path-sensitive typestate, ownership and bounds analysis over the LLVM IR.

Abstract states (call stack, symbolic memory, resource typestates, linear facts) are propagated along the control-flow
graph; undecided branches and the documented outcomes of library calls (success, failure) split a state, states that agree
on everything still live are merged, loops are either unfolded while they make concrete progress or generalised at their
header (differing values become unknowns related by inductive linear invariants). Nothing is executed; conditions are decided
by linear entailment only."""
from terms import *
from terms import _flat
from linear import Ctx, _flatand, _flator
from memory import *
import time
import interp
from interp import Interp, St, Env, Access, Event, Unsupported, analyse_cfg, FCALLS, PURE_EXT

class Fork(Exception):
    def __init__(self, cond): self.cond = cond
class Stop(Exception):
    """the path ends here (abort, exit)"""
class Limit(Exception): pass
class Found(Exception):
    """the problem looked for has appeared"""

class Out:
    """one outcome of a library call"""
    __slots__ = ("val", "lits", "eff", "label")
    def __init__(self, val, lits=(), eff=None, label=None): self.val, self.lits, self.eff, self.label = val, tuple(lits), eff, label

class Rep:
    """a problem: what, the outcomes of library calls on the path, why it is uncertain, decisions on the path, values"""
    def __init__(self, text, labels, fuzzy, trace, wit=None): self.text, self.labels, self.fuzzy, self.trace, self.wit = text, labels, fuzzy, trace, wit
    def __repr__(self): return "%s | after %s%s%s" % (self.text, ", ".join(self.labels) or "no failure", " | FUZZY %s" % self.fuzzy if self.fuzzy else "", " | %s" % self.wit if self.wit else "")
class Frame:
    __slots__ = ("f", "env", "b", "k", "call", "loops", "va")
    def copy(self):
        o = Frame(); o.f, o.b, o.k, o.call, o.va = self.f, self.b, self.k, self.call, self.va
        o.loops = dict(self.loops)
        e = Env(); e.f, e.site, e.v = self.env.f, self.env.site, dict(self.env.v); e.nalloca = 0
        o.env = e
        return o
class PS:
    """abstract state of one group of paths"""
    __slots__ = ("frames", "st", "ctx", "res", "obj", "known", "own", "cnt", "trace", "tags", "fuzzy", "pos", "dev")
    def copy(self):
        o = PS(); o.frames = [f.copy() for f in self.frames]
        o.st = self.st.copy(); o.ctx = self.ctx
        o.res, o.obj, o.known, o.own, o.cnt = dict(self.res), dict(self.obj), dict(self.known), dict(self.own), dict(self.cnt)
        o.trace, o.tags, o.fuzzy, o.pos, o.dev = self.trace, dict(self.tags), self.fuzzy, self.pos, self.dev
        return o
    def fresh(self, *site):
        n = self.cnt.get(site, 0); self.cnt[site] = n + 1
        return site + (n,)
    def note(self, *w): self.trace = (w, self.trace)
    def labels(self, most=6):
        out, t = [], self.trace
        while t is not None and len(out) < most:
            if t[0][0] == "ext": out.append(t[0][1])
            t = t[1]
        return out[::-1]

HELD, GONE, MOVED = "held", "released", "moved"

_da = {}
def deep(t):
    """all symbols, objects and opaque terms a value depends on"""
    r = _da.get(t)
    if r is not None: return r
    r = frozenset(s for s in subterms(t) if isinstance(s, T) and s.op not in ("ge0", "eq0", "not", "and", "or", "true", "false", "mstore", "fc"))
    _da[t] = r
    return r

def liveness(f):
    """block -> (live at entry, uses): values needed later"""
    r = getattr(f, "_live", None) if False else _LV.get(f)
    if r is not None: return r
    use, de, phiuse = {}, {}, {b: set() for b in f.blocks}
    for b in f.blocks:
        u, d = set(), set()
        for x in b.insts:
            if x.op == "phi":
                for v, p in x.inc:
                    if v.kind in ("inst", "arg"): phiuse[p].add(v)
            else:
                for v in _uses(x):
                    if v not in d: u.add(v)
            v = _iv(f, x)
            if v is not None: d.add(v)
        use[b], de[b] = u, d
    lin = {b: set() for b in f.blocks}; lout = {b: set() for b in f.blocks}
    ch = True
    while ch:
        ch = False
        for b in reversed(f.blocks):
            o = set(phiuse[b])
            for s in b.succ: o |= lin[s]
            i = use[b] | (o - de[b])
            if o != lout[b] or i != lin[b]: lout[b], lin[b] = o, i; ch = True
    _LV[f] = (lin, lout)
    return _LV[f]
_LV, _IV = {}, {}
def _iv(f, x):
    m = _IV.get(f.mod)
    if m is None:
        m = _IV[f.mod] = {}
        for v in list(f.mod._vals.values()):
            if v.kind == "inst" and v.inst is not None: m[v.inst] = v
    return m.get(x)
def _uses(x):
    out = []
    def add(v):
        if v is None: return
        if v.kind in ("inst", "arg"): out.append(v)
        elif v.ops and v.kind in ("cexpr", "vec", "agg"):
            for o in v.ops: add(o)
    for o in x.ops or []: add(o)
    if x.op == "call" and x.callee is not None: add(x.callee)
    return out

I32 = (-(1 << 31), (1 << 31) - 1)
RANGE = {8: (-128, 127), 16: (-32768, 32767), 32: I32}

class Explorer(Interp):
    def __init__(self, mod, models=None, hooks=None, alloc_fail=True, prove=True, kmax=3, budget=4000, sites=()):
        Interp.__init__(self, mod, hooks={}, assume_alloc=True)
        self.M = dict(models or {}); self.M.update(hooks or {})
        self.alloc_fail, self.prove, self.kmax = alloc_fail, prove, kmax
        self.budget = budget            # states processed
        self.nstates = self.nsteps = 0
        self.seen = set(); self.joins = {}
        self.instances = {}
        self.ninst = 0
        self.acq, self.sources, self.entries = {}, {}, None
        self.reports = {}               # (kind, where) -> (text, state labels)
        self.bounds = {}                # (kind, inst) -> [ok, unknown-example, violated-example]
        self.ends = []
        self.limits = set()
        self.S = None
        self.bytes = {}
        self.on_end = None; self.fail_sites = set(); self.texts, self.printed, self.faults = False, None, True
        self.on_access = self.check_access
        self.stderr_ops = ("fprintf", "perror", "fputs", "puts", "printf", "vfprintf")

    def default_root(self, base):
        """the callers are whole programs: variables start with their initialisers"""
        if base.op == "global" and base not in self.initmem and base.a[0] in self.mod.globals:
            g = self.mod.globals[base.a[0]]
            if g.init is not None and g.ty.k in ("int", "ptr", "float", "double"):
                c = self.initmem[base] = mk("mstore", mk("minit", base), ZERO, tkey(g.ty), self.cval(g.init) if g.init.kind != "zero" else zero(tkey(g.ty)))
                return c
        return Interp.default_root(self, base)
    # ------------------------------------------------------------------ hooks for the checks
    def opened(self, S, b, args): return None
    def writing(self, S, fp): return True
    def written(self, S, name, fp, args, x): pass
    def entry_added(self, S, z, name, src, x): pass
    def consumed(self, S, fp, d, n, r): return None
    def entry_named(self, S, a, ok): pass
    def entry_opened(self, S, b, args): return None
    def short(self, f): return f.split("/")[-1] if f else "?"

    # ------------------------------------------------------------------ results
    def report(self, kind, text, inst=None, extra=None, at=None):
        S = self.S
        fr = S.frames[-1] if S.frames else None
        x = inst if inst is not None else (fr.b.insts[fr.k] if fr is not None else None)
        w = at if at is not None else (x.file, x.line, fr.f.name if fr else "?") if x is not None else ("?", 0, "?")
        k = (kind, w, extra)
        if k not in self.reports: self.reports[k] = Rep(text, S.labels(), S.fuzzy, S.trace)
        elif self.reports[k].fuzzy and not S.fuzzy: self.reports[k] = Rep(text, S.labels(), S.fuzzy, S.trace)
        if self.target == ("R", k) and not S.fuzzy: raise Found()
    def key(self, x): return (x.id,) + self.S.frames[-1].env.site

    # ------------------------------------------------------------------ running
    def start(self, f, args, facts=(), init=None, obj=None, res=None, known=None):
        S = PS(); S.st = St(dict(init or {}), self.default_root); S.ctx = Ctx(list(facts)); S.res, S.obj, S.known, S.own, S.cnt = dict(res or {}), dict(obj or {}), dict(known or {}), {}, {}
        S.trace = None; S.tags = {}; S.fuzzy = None; S.frames = []; S.pos, S.dev = 0, 0
        self.push(S, f, args, None)
        return S
    def push(self, S, f, args, call, va=()):
        if len(S.frames) > 24: raise Limit("call depth at %s" % f.name)
        if sum(1 for fr in S.frames if fr.f is f) > 3: raise Limit("recursion in %s" % f.name)
        self.funcs_seen.add(f.name)
        fr = Frame(); fr.f, fr.b, fr.k, fr.call, fr.loops, fr.va = f, f.blocks[0], 0, call, {}, va
        e = Env(); e.f = f; e.v = dict(zip(f.args, args)); e.nalloca = 0
        e.site = (S.frames[-1].env.site + (call.id,)) if S.frames and call is not None else ()
        fr.env = e
        S.frames.append(fr)
    def explore(self, S):
        work = [S]
        try:
            while work:
                if self.plan is not None:
                    i = min(range(len(work)), key=lambda i: (work[i].dev, -work[i].pos, -i))
                    S = work.pop(i)
                else: S = work.pop()
                self.nstates += 1
                if self.nstates > self.budget: raise Limit("more than %d abstract states" % self.budget)
                if self.deadline and time.time() > self.deadline: raise Limit("time")
                self.advance(S, work)
        except Limit as e:
            self.limits.add(str(e))
        except Found: pass
    plan, deadline, target = None, None, None
    def chose(self, S, x, alts):
        """record which alternative of the undecided instruction x each state takes; alts = [(choice, state)]"""
        site = alts[0][1].frames[-1].env.site
        j, pos, dev = None, S.pos, S.dev
        if self.plan is not None:
            for i in range(pos, min(len(self.plan), pos + 40)):
                if self.plan[i][0] == x.id and self.plan[i][1] == site: j = i; break
        for n, (c, T_) in enumerate(alts):
            if self.plan is not None:
                if j is None: T_.pos, T_.dev = pos, dev + (0.25 if n else 0)
                else: T_.pos, T_.dev = j + 1, dev + (self.plan[j][2] != c)
            T_.note("d", x.id, site, c)
    def advance(self, S, work):
        self.S = S
        while True:
            fr = S.frames[-1]
            x = fr.b.insts[fr.k]
            self.callstack = [f.f for f in S.frames]
            self.nsteps += 1
            o = x.op
            if self.debug == 2: print("     ", fr.f.name, x.line, o, fr.b.idx, fr.k)
            try:
                if o == "phi": fr.k += 1; continue
                if o == "ret":
                    rv = self.val(fr.env, x.ops[0]) if x.ops else None
                    call = fr.call
                    self.drop_locals(S, fr)
                    if len(S.frames) == 1:
                        self.end(S, rv); return
                    S.frames.pop()
                    c = S.frames[-1]
                    if rv is not None: c.env.v[_iv(c.f, call)] = rv
                    c.k += 1
                    if not self.join_point(S): return
                    continue
                if o == "br":
                    if not x.ops: 
                        if not self.edge(S, x.succ[0]): self.died(S, "edge"); return
                        continue
                    c = self.val(fr.env, x.ops[0])
                    r = self.decide(S, c)
                    if r is None:
                        self.undecided_exit(fr, x)
                        T_ = S.copy()
                        other = self.assume(T_, [bnot(c)]); mine = self.assume(S, [c])
                        self.chose(S, x, ([(0, S)] if mine else []) + ([(1, T_)] if other else [])) if mine or other else None
                        if other:
                            self.S = T_
                            if self.edge(T_, x.succ[1]): work.append(T_)
                            self.S = S
                        if not mine: return
                        if not self.edge(S, x.succ[0]): return
                        if self.yield_to(S, work): return
                        continue
                    if not self.edge(S, x.succ[0] if r else x.succ[1]): self.died(S, "edge"); return
                    continue
                if o == "switch":
                    v = self.val(fr.env, x.ops[0])
                    rest, tg = [], []
                    for kk, t in x.cases:
                        c = eq0(psub(v, C(kk))); r = self.decide(S, c)
                        if r is True: tg = [([], t)]; rest = None; break
                        if r is None: tg.append(([c], t)); rest.append(bnot(c))
                    if rest is not None: tg.append((rest, x.succ[0]))
                    alts = []
                    for i, (lits, t) in enumerate(tg):
                        T_ = S if i == len(tg) - 1 else S.copy()
                        if self.assume(T_, lits): alts.append((i, T_, t))
                    if len(tg) > 1 and alts: self.chose(S, x, [(i, T_) for i, T_, t in alts])
                    for i, T_, t in alts:
                        if T_ is S: continue
                        self.S = T_
                        if self.edge(T_, t): work.append(T_)
                    self.S = S
                    if not alts or alts[-1][1] is not S or not self.edge(S, alts[-1][2]): return
                    if len(tg) > 1 and self.yield_to(S, work): return
                    continue
                if o == "unreachable": return
                if o == "call":
                    outs = self.step_call(S, fr, x)
                    if outs is None: continue                    # a frame was pushed or the value was set
                    live = []
                    site = fr.env.site
                    alts = []
                    for i, u in enumerate(outs):
                        T_ = S if i == len(outs) - 1 else S.copy()
                        if self.assume(T_, u.lits): alts.append((i, T_))
                    if len(outs) > 1 and alts: self.chose(S, x, alts)
                    if len(outs) > 1 and x.callee.kind == "func" and x.callee.name.split("_")[-1].split(".")[0] in self.INPUT or x.callee.name == "zip_fread": self.input_read(S)
                    for i, T_ in alts:
                        u = outs[i]
                        self.S = T_
                        if u.label: T_.note("ext", u.label)
                        if u.eff is not None: u.eff(T_)
                        if u.label and T_.tags.get("silent") == u.label: T_.tags["silent"] = (u.label, (x.file, x.line, fr.f.name)); self.fail_sites.add(T_.tags["silent"])
                        if u.val is not None: T_.frames[-1].env.v[_iv(fr.f, x)] = u.val
                        T_.frames[-1].k += 1
                        live.append(T_)
                    if not live: self.died(S, "no outcome"); return
                    S = live.pop(); work.extend(live)
                    self.S = S
                    if live and self.yield_to(S, work): return
                    continue
                v = self.one(S, fr, x)
                if v is not None: fr.env.v[_iv(fr.f, x)] = v
                fr.k += 1
            except Fork as e:
                T_ = S.copy()
                a = self.assume(T_, [bnot(e.cond)]); m = self.assume(S, [e.cond])
                if a or m: self.chose(S, x, ([(0, S)] if m else []) + ([(1, T_)] if a else []))
                if a: work.append(T_)
                if not m: return
                if a and self.yield_to(S, work): return
            except Stop: self.died(S, "stop"); return
            except Unsupported as e:
                self.limits.add("%s @%s:%s" % (e, x.file, x.line)); return
    def yield_to(self, S, work):
        """while a reported path is followed: put the state back when another one is closer to it"""
        if self.plan is None or not work: return False
        if min((w.dev, -w.pos) for w in work) < (S.dev, -S.pos): work.append(S); return True
        return False
    def end(self, S, rv):
        self.collect(S, final=True)
        self.ends.append(S)
        if self.on_end: self.on_end(self, S, rv)

    debug = False
    def died(self, S, why):
        if self.debug:
            fr = S.frames[-1]; x = fr.b.insts[fr.k]
            print("   died", why, fr.f.name, x.line, fr.b.name if hasattr(fr.b, "name") else "", S.labels())
    def edge(self, S, to):
        """follow an edge; False when the state is subsumed"""
        fr = S.frames[-1]
        frm = fr.b
        vals = []
        for x in to.insts:
            if x.op != "phi": break
            v = next(a for a, p in x.inc if p is frm)
            vals.append((_iv(fr.f, x), self.val(fr.env, v)))
        for k, v in vals: fr.env.v[k] = v
        fr.b, fr.k = to, 0
        order, num, idom, loops, inner = analyse_cfg(fr.f)
        lp = loops.get(to)
        if lp is not None: return self.header(S, fr, lp, frm in lp.blocks)
        if len(to.preds) > 1: return self.join_point(S)
        return True

    # ------------------------------------------------------------------ conditions
    def decide(self, S, c):
        r = S.ctx.implies(c)
        return r
    def assume(self, S, lits):
        """add literals; False if they contradict what is known"""
        new = []
        for l in lits:
            for y in _flatand(l):
                r = self.decide(S, y)
                if r is False: return False
                if r is None: new.append(y)
        if not new: return True
        S.ctx = S.ctx.plus(new)
        more = []
        for y in new: more += self.learn(S, y)
        if more: S.ctx = S.ctx.addf(more)
        return True
    def learn(self, S, y):
        """what a comparison of a byte of a string says about the position of known bytes"""
        out = []
        neg = y.op == "not"
        z = y.a[0] if neg else y
        if z.op in ("eq0", "ge0"):
            for at in z.a[0].atoms():
                if at.op == "zext8" and isinstance(at.a[0], P) and len(at.a[0].atoms()) == 1: at2 = next(iter(at.a[0].atoms()))
                else: at2 = at
                w = self.bytes.get(at2)
                if w is not None:
                    l = plin(z.a[0], at)
                    if l is None or l[0].const() not in (1, -1) or l[1].const() is None: continue
                    k = -l[1].const() * l[0].const()
                    for base, off in w:
                        if S.st.d.get(base) is not None or True:
                            for Pp, c in S.known.get(base, ()) if z.op == "eq0" and not neg and k == 0 else ():
                                # the first terminator of a string is not behind one that was seen
                                sl = [y for y in Pp.atoms() if y.op == "slen" and y.a[0] is S.st.get(base)]
                                if c == 0 and len(sl) == 1 and psub(Pp, A(sl[0])) is sl[0].a[1] and S.ctx.ge0(psub(off, sl[0].a[1])): out.append(psub(off, Pp))
                            for Pp, c in S.known.get(base, ()):
                                excl = (c == k) if (z.op == "eq0" and neg) else (c != k) if z.op == "eq0" else False
                                if z.op == "ge0":
                                    val = l[0].const() * c + l[1].const() >= 0
                                    excl = val if neg else not val
                                if excl and S.ctx.ge0(psub(Pp, off)): out.append(psub(psub(Pp, off), ONE))
                elif at.op == "iop" and neg and z.op == "eq0":
                    for s in subterms(at):
                        if isinstance(s, T) and s.op == "ctype":
                            for ba in deep(s):
                                for base, off in self.bytes.get(ba, ()):
                                    for Pp, c in S.known.get(base, ()):
                                        if not (48 <= c <= 57) and S.ctx.ge0(psub(Pp, off)): out.append(psub(psub(Pp, off), ONE))
        return out

    # ------------------------------------------------------------------ single instructions
    def inrange(self, S, p, bits):
        lo, hi = RANGE[bits]
        c = p.const()
        if c is not None: return lo <= c <= hi
        if all(len(mo) <= 1 and (not mo or self.atom_bits(mo[0]) <= bits) for mo, _ in p.m) and len(p.m) == 1 and abs(p.m[0][1]) == 1 and p.m[0][1] == 1: return True
        return S.ctx.ge0(psub(p, C(lo))) and S.ctx.ge0(psub(C(hi), p))
    def atom_bits(self, at):
        if at.op in ("ld", "ldm"): return {"i8": 8, "i16": 16, "i32": 32, "i64": 64}.get(at.a[2], 64)
        if at.op in ("zext8",): return 16
        if at.op == "tr": return at.a[0]
        if at.op == "sym" and isinstance(at.a[0], str): return self.symbits.get(at.a[0], 64)
        if at.op in ("ext", "slot") and isinstance(at.a[-1], int): return at.a[-1]
        return 64
    symbits = {}
    def wrapn(self, S, p, bits):
        """value of an operation computed in `bits` bits"""
        if bits not in RANGE: return p
        c = p.const()
        lo, hi = RANGE[bits]
        if c is not None:
            c &= (1 << bits) - 1
            return C(c - (1 << bits) if c > hi else c)
        if self.inrange(S, p, bits): return p
        t = A(mk("tr", bits, p))
        inside = band(ge0(psub(p, C(lo))), ge0(psub(C(hi), p)))
        r = S.ctx.implies(inside)
        if r is True: return p
        if r is None: 
            if self.wrap_forks: raise Fork(inside)
            return p
        S.ctx = S.ctx.addf([psub(t, C(lo)), psub(C(hi), t)])
        return t
    wrap_forks = True
    wrap64 = False
    def wrapu(self, S, p):
        """a product computed in 64 bits, as an unsigned number where it is one"""
        inside = ge0(psub(C((1 << 64) - 1), p))
        if not S.ctx.ge0(psub(p, C(-(1 << 63)))): return p
        r = S.ctx.implies(inside)
        if r is None: raise Fork(inside)
        if r: return p
        t = A(mk("tr", 64, p))
        S.ctx = S.ctx.addf([t, psub(C((1 << 64) - 1), t)])
        return t
    def one(self, S, fr, x):
        o = x.op
        env = fr.env
        V = lambda i: self.val(env, x.ops[i])
        if o == "load": return self.load_at(S, V(0), tkey(x.ty), x)
        if o == "store":
            v, p = V(0), V(1); tk = tkey(x.ops[0].ty)
            self.touch(S, "store", p, C(tsize(tk)), x)
            self.store_at(S, p, tk, v)
            return None
        if o == "alloca":
            n = V(0)
            b = mk("alloca", (fr.f.name, x.id, env.site), x.name)
            S.obj[b] = (pscale(n, x.aty.size), x.align, "alloca")
            S.st.d[b] = mk("mundef", b)
            S.known.pop(b, None); S.res.pop(b, None)
            if n.const() is None and not S.ctx.ge0(n): self.bound(S, "size", x, [n], "size of a local array")
            return mkptr(b)
        if o == "select" and x.ty.k in ("ptr", "int"):
            c = V(0); r = S.ctx.implies(c)
            if r is None: raise Fork(c)
            return V(1) if r else V(2)
        if o == "icmp":
            a, b = V(0), V(1)
            if isinstance(a, P) and isinstance(b, P):
                if x.pred[0] == "u":
                    for p in (a, b):
                        if not S.ctx.ge0(p) and not S.ctx.ge0(psub(C(-1), p)): raise Fork(ge0(p))
                return self.icmp(x.pred, a, b, S.ctx)
        if o == "trunc":
            a = V(0)
            if isinstance(a, P) and x.ty.k == "int" and x.ty.bits in RANGE: return self.wrapn(S, a, x.ty.bits)
        if o == "zext" and isinstance(V(0), P):
            a = V(0); sb = x.ops[0].ty.bits
            if sb > 1:
                if S.ctx.ge0(a): return a
                if sb == 8 or sb == 16: 
                    c = a.const()
                    if c is not None: return C(c & ((1 << sb) - 1))
                    t = next(iter(a.atoms())) if len(a.m) == 1 and a.m[0][1] == 1 and len(a.m[0][0]) == 1 else None
                    if t is not None and t.op == "tr" and t.a[0] == sb and S.ctx.ge0(t.a[1]) and S.ctx.ge0(psub(C((1 << sb) - 1), t.a[1])): return t.a[1]
                    z = A(mk("zext%d" % sb, a))
                    S.ctx = S.ctx.addf([z, psub(C((1 << sb) - 1), z)])
                    return z
                if not S.ctx.ge0(psub(C(-1), a)): raise Fork(ge0(a))
                return padd(a, C(1 << sb))
        if o in ("add", "sub", "mul", "shl") and x.ty.k == "int" and x.ty.bits in (8, 16, 32):
            return self.wrapn(S, self.iop(o, V(0), V(1), x.ty.bits, S.ctx), x.ty.bits)
        if self.wrap64 and o in ("mul", "add", "shl") and x.ty.k == "int" and x.ty.bits == 64:
            a, b = V(0), V(1)
            if isinstance(a, P) and isinstance(b, P):
                p = self.iop(o, a, b, 64, S.ctx)
                if o == "mul" and a.const() is None and b.const() is None or any(len(mo) > 1 for mo, _ in p.m) or any(at.op == "tr" and at.a[0] == 64 for at in p.atoms()):
                    p = self.wrapu(S, p)
                return p
        if o in ("sdiv", "udiv", "srem", "urem"):
            d = V(1)
            if isinstance(d, P) and d.const() is None and S.ctx.implies(eq0(d)) is None: raise Fork(eq0(d))
            if isinstance(d, P) and S.ctx.implies(eq0(d)) is True: self.report("div", "division by zero", x); raise Stop()
        if o == "or" and isinstance(V(0), P) and isinstance(V(1), P):
            r = self.disjoint_or(S, V(0), V(1))
            if r is not None: return r
        if o == "va_arg": return wrap(mk("ext", "va", S.fresh("va", self.key(x))), tkey(x.ty))
        if o == "extractvalue":
            a = V(0)
            if isinstance(a, tuple): return a[x.idx[0]]
        if o == "getelementptr":
            self.subobject(S, fr, x, [V(i) for i in range(len(x.ops))])
        self.callstack = [f.f for f in S.frames]
        return self.inst(env, x, S.st, S.ctx, None)
    def disjoint_or(self, S, a, b):
        """a | b for byte composition: low byte in 0..255, the other a multiple of 256"""
        for p, q in ((a, b), (b, a)):
            if p.const() == 0: return q
            if q.m and all(c % 256 == 0 for mo, c in q.m) and S.ctx.ge0(p) and S.ctx.ge0(psub(C(255), p)): return padd(p, q)
        return None
    def cval(self, v):
        if v.kind == "cexpr" and v.v == "inttoptr":
            p = Interp.cval(self, v.ops[0])
            return mkptr(mk("i2p", p)) if isinstance(p, P) and p.const() != 0 else NULL if isinstance(p, P) else p
        return Interp.cval(self, v)
    def pcmp(self, pred, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and pred in ("eq", "ne") and a.base is not b.base:
            real = ("obj", "alloca", "global", "func")
            for p, q in ((a, b), (b, a)):
                if p.base.op == "i2p" and q.base.op in real + ("sym", "null"): return bconst(pred == "ne")
                if p.base is NULLB and q.base.op in real + ("sym",): return bconst(pred == "ne")
            if a.base.op in real + ("sym",) and b.base.op in real + ("sym",): return bconst(pred == "ne")
        return Interp.pcmp(self, pred, a, b)

    def subobject(self, S, fr, x, ops):
        """an index into an array member must stay inside that member when the element is accessed directly"""
        t = x.gepty
        for k, i in enumerate(ops[2:]):
            if t.k == "struct": t = t.fields[i.const()]
            elif t.k in ("array", "vector"):
                n = t.n; t = t.elt
                if n > 0 and isinstance(i, P) and k >= 0 and self.direct(fr.f, x):
                    last = all(not isinstance(j, P) or True for j in ops[2 + k + 1:])
                    self.bound(S, "index", x, [i, psub(C(n - 1), i)], "array index")
    def direct(self, f, x):
        r = self._direct.get(x) if hasattr(self, "_direct") else None
        if r is None:
            if not hasattr(self, "_direct"): self._direct = {}
            v = _iv(f, x)
            r = False
            for b in f.blocks:
                for y in b.insts:
                    if y.op == "load" and y.ops[0] is v or y.op == "store" and y.ops[1] is v: r = True
            self._direct[x] = r
        return r

    # ------------------------------------------------------------------ memory
    def resolve(self, S, p):
        while isinstance(p, T) and p.op == "pite":
            r = S.ctx.implies(p.a[0])
            if r is None: raise Fork(p.a[0])
            p = p.a[1] if r else p.a[2]
        if isinstance(p, Ptr) and p.base.op == "undefp": S.fuzzy = "an undefined pointer"
        return p
    def load_at(self, S, p, tk, x):
        p = self.resolve(S, p)
        if not isinstance(p, Ptr): raise Unsupported("load through %s" % show(p, 2))
        self.touch(S, "load", p, C(tsize(tk)), x)
        if p.base.op == "ctypetab":
            return A(mk("ctype", pdiv_exact(p.off, 2) or p.off))
        if tk == "i8":
            return self.byte(S, p)
        v = self.load(S.st, p, tk, S.ctx)
        c = self._cond(v)
        if c is not None: raise Fork(c)
        return v
    def _cond(self, v):
        """an undecided condition at the top of a loaded value"""
        if isinstance(v, T) and v.op in ("pite", "ite"):
            if self.S.ctx.implies(v.a[0]) is None: return v.a[0]
        if isinstance(v, P):
            for at in v.atoms():
                if at.op == "ite" and self.S.ctx.implies(at.a[0]) is None: return at.a[0]
        return None
    def cstr(self, p):
        if isinstance(p, Ptr) and p.base.op == "global" and not (p.base.a[0] in self.constglob or self.mod.globals.get(p.base.a[0]) is not None and self.mod.globals[p.base.a[0]].const): return None
        return Interp.cstr(self, p)
    def byte(self, S, p):
        s = self.cstr(p)
        if s is not None: return C(ord(s[0]) if s and ord(s[0]) < 128 else ord(s[0]) - 256 if s else 0)
        for P_, c in S.known.get(p.base, ()):
            if P_ is p.off or S.ctx.eq(P_, p.off): return C(c)
        ch = S.st.get(p.base)
        v = read(ch, p.off, "i8", S.ctx)
        if isinstance(v, P) and v.const() is not None: return v
        if self.texts:
            while True:
                c = self._cond(v)
                if c is not None: raise Fork(c)
                at = v.m[0][0][0] if isinstance(v, P) and len(v.m) == 1 and len(v.m[0][0]) == 1 and v.m[0][1] == 1 else None
                if at is None or at.op != "ite": break
                v = at.a[1] if S.ctx.implies(at.a[0]) else at.a[2]
        if isinstance(v, P) and v.const() is not None: return v
        if not isinstance(v, P) or any(at.op == "ite" for at in v.atoms()): v = A(mk("ldm", ch, p.off, "i8"))
        for at in v.atoms(): 
            w = self.bytes.setdefault(at, [])
            if (p.base, p.off) not in w: w.append((p.base, p.off))
        if len(v.m) == 1 and v.m[0][1] == 1:
            S.ctx = S.ctx.addf([padd(v, C(128)), psub(C(127), v)]) if padd(v, C(128)) not in S.ctx.facts else S.ctx
        return v
    def store_at(self, S, p, tk, v):
        p = self.resolve(S, p)
        if not isinstance(p, Ptr): raise Unsupported("store through %s" % show(p, 2))
        n = tsize(tk)
        self.forget(S, p.base, p.off, C(n))
        self.store(S.st, p, tk, v, S.ctx)
        if tk == "i8" and isinstance(v, P) and v.const() is not None:
            S.known[p.base] = S.known.get(p.base, frozenset()) | {(p.off, v.const())}
    def forget(self, S, base, off, n):
        """bytes [off, off+n) are overwritten"""
        k = S.known.get(base)
        if k:
            nk = frozenset((P_, c) for P_, c in k if S.ctx.ge0(psub(psub(off, ONE), P_)) or S.ctx.ge0(psub(P_, padd(off, n))))
            if nk: S.known[base] = nk
            else: S.known.pop(base)
    def havoc(self, S, p, n, tag):
        """the n bytes at p get unknown contents"""
        self.forget(S, p.base, p.off, n)
        src = mk("ext", "data", S.fresh(tag))
        S.st.d[p.base] = mk("mcopy", S.st.get(p.base), p.off, n, mk("minit", src), ZERO)
        return src
    def touch(self, S, kind, p, size, x):
        p = self.resolve(S, p)
        if not isinstance(p, Ptr): return
        b = p.base
        if b is NULLB or b.op == "i2p":
            if not (size.const() == 0 or S.ctx.implies(eq0(size)) is True):
                self.report("null", "a null pointer is dereferenced", x); raise Stop()
            return
        r = S.res.get(b)
        if r is not None and r[1] == GONE:
            self.report("use", "memory is used after its release (%s)" % r[0], x); raise Stop()
        if b.op == "global" and kind == "store" and self.mod.globals.get(b.a[0]) is not None and self.mod.globals[b.a[0]].const:
            self.report("const", "a constant is overwritten", x); return
        o = S.obj.get(b)
        e = None
        if o is not None: e = o[0]
        elif b.op == "global" and b.a[0] in self.mod.globals: e = C(self.mod.globals[b.a[0]].ty.size)
        if e is None: return
        self.bound(S, kind, x, [p.off, psub(psub(e, p.off), size)], "%s of %s bytes at offset %s of %s bytes" % (kind, show(size, 3), show(p.off, 3), show(e, 3)), size)
    def check_access(self, a): 
        S = self.S
        self.touch(S, a.kind, mkptr(a.base, a.off), a.size, a.inst)
    def bound(self, S, kind, x, goals, text, size=None):
        k = (kind, x, S.frames[-1].f.name)
        r = self.bounds.setdefault(k, [0, None, None])
        ctx = S.ctx
        if size is not None and size.const() is None:
            ctx = ctx.addf([psub(size, ONE)])
            if not ctx.ge0(size): pass
        if all(ctx.ge0(g) for g in goals): r[0] += 1; return
        bad = next((g for g in goals if not ctx.ge0(g)), goals[0])
        if self.target != ("B", k):
            if r[1] is None: r[1] = []
            if len(r[1]) < 3 and not any(q.labels == S.labels() for q in r[1]): r[1].append(Rep(text, S.labels(), S.fuzzy or "not implied by the conditions on the path", S.trace))
            return
        wit = self.witness(ctx, goals)
        if wit is not None and not S.fuzzy:
            if r[2] is None: r[2] = Rep(text, S.labels(), None, S.trace, wit)
            raise Found()
    def witness(self, ctx, goals):
        """values of the unknowns that satisfy every collected condition and break a goal"""
        return find_witness(ctx, goals, self)

    # ------------------------------------------------------------------ joins
    def drop_locals(self, S, fr):
        site = fr.env.site
        for b in list(S.obj):
            if b.op == "alloca" and b.a[0][0] == fr.f.name and b.a[0][2] == site:
                S.obj.pop(b); S.st.d.pop(b, None); S.known.pop(b, None)
                S.res[b] = ("local variable of %s" % fr.f.name, GONE)
    def roots(self, S):
        """values that are still needed, innermost frame last"""
        out = []
        n = len(S.frames)
        for i, fr in enumerate(S.frames):
            lin, lout = liveness(fr.f)
            if fr.k == 0 or (i == n - 1 and all(y.op == "phi" for y in fr.b.insts[:fr.k])): need = lin[fr.b] | {_iv(fr.f, y) for y in fr.b.insts if y.op == "phi"}
            else:
                need = set(lout[fr.b])
                last = fr.k + (0 if i == n - 1 else 1)
                for y in reversed(fr.b.insts[last:]):
                    v = _iv(fr.f, y)
                    need.discard(v)
                    if y.op != "phi": need |= set(_uses(y))
            ev = fr.env.v
            for v in list(ev):
                if v not in need: del ev[v]
            out.append((fr, sorted(ev.items(), key=lambda t: t[0].inst.id if t[0].inst is not None else -id(t[0]))))
        return out
    def collect(self, S, final=False):
        """forget what cannot be reached any more; resources lost that way are leaks"""
        rts = self.roots(S) if S.frames and not final else []
        live = set()
        bases, todo = set(), []
        def see(t):
            if t is None or isinstance(t, tuple): 
                for y in t or (): see(y)
                return
            for d in deep(t):
                if d not in live:
                    live.add(d); todo.append(d)
        for fr, vals in rts:
            for v, t in vals: see(t)
            for t in fr.va: see(t)
        for kk, t in S.tags.items():
            if isinstance(t, Base) or isinstance(kk, tuple) and kk[0] in ("pos", "filled", "byte", "from", "file", "out"): see(t)
        given = [b for b in set(S.st.d) | set(S.obj) if b.op in ("sym", "global", "ld") or b.op == "ext"]
        for b in given: see(b)
        done = set()
        while todo:
            d = todo.pop()
            if d in done: continue
            done.add(d)
            if d in S.st.d: see(S.st.d[d])
            for y in S.own.get(d, ()): see(y[1])
            if d in S.obj: see(S.obj[d][0])
            for Pp, c in S.known.get(d, ()): see(Pp)
        fr = S.frames[-1] if S.frames else None
        for b, (kind, status) in list(S.res.items()):
            if b in live: continue
            if status == HELD and b.op not in ("sym",):
                self.leak(S, b, kind)
            S.res.pop(b, None); 
        for b in list(S.obj):
            if b not in live: S.obj.pop(b); S.st.d.pop(b, None); S.known.pop(b, None); S.own.pop(b, None)
        for b in list(S.st.d):
            if b not in live and b.op not in ("global", "sym"): S.st.d.pop(b)
        for b in list(S.own):
            if b not in live: S.own.pop(b)
        for kk in list(S.tags):
            if isinstance(kk, tuple) and kk[0] in ("pos", "filled", "byte", "reads", "err", "from") and kk[1] not in live and kk[1] not in S.st.d and kk[1] not in S.res: S.tags.pop(kk)
        # facts about things nobody can observe any more are projected out
        S.ctx = project(S.ctx, live)
        rel = set(live)
        for f in list(S.ctx.facts) + list(S.ctx.bools) + list(S.ctx.disj): rel |= deep(f)
        # reuse the numbers of names that disappeared
        top = {}
        for d in rel | live:
            if d.op in ("ext", "obj", "fd", "slot"):
                for y in d.a:
                    if isinstance(y, tuple) and y and isinstance(y[-1], int): top[y[:-1]] = max(top.get(y[:-1], 0), y[-1] + 1)
        S.cnt = {k: top[k] for k in S.cnt if k in top}
    def leak(self, S, b, kind):
        x = None
        site = b.a[-1] if isinstance(b.a[-1], tuple) else b.a[0]
        xi = self.acq.get(b)
        self.report("leak", "%s acquired at %s is lost without being released" % (kind, xi or "?"), extra=xi)
        if b.op == "obj":
            for y in S.own.get(b, ()):
                pass
    def statekey(self, S):
        k = []
        for fr in S.frames:
            k.append((fr.f.name, fr.b.idx, fr.k, fr.env.site, tuple(sorted((b.idx, i) for b, i in fr.loops.items()))))
            k.append(frozenset((v, _vid(t)) for v, t in fr.env.v.items()))
        k.append(frozenset((b, c) for b, c in S.st.d.items() if c is not S.st.root(b)))
        k.append(frozenset(S.ctx.facts)); k.append(S.ctx.bools); k.append(frozenset(S.ctx.disj))
        k.append(frozenset(S.res.items())); k.append(frozenset(S.obj.items())); k.append(frozenset(S.known.items()))
        k.append(frozenset((a, b) for a, b in S.own.items())); k.append(frozenset((a, b) for a, b in S.tags.items())); k.append(S.fuzzy)
        return tuple(k)
    def join_point(self, S, merge=True):
        self.collect(S)
        k = self.statekey(S)
        if k in self.seen: return False
        self.seen.add(k)
        if self.prove and merge and S.frames:
            fr = S.frames[-1]
            key = (fr.b, fr.k, fr.env.site, tuple(sorted((b.idx, i) for b, i in fr.loops.items())), self.outline(S))
            D = self.joins.setdefault(key, {"n": 0, "slot": ("join", len(self.joins)), "G": None})
            D["n"] += 1
            if D["n"] > self.exact:
                G = D["G"]
                if G is None or len(G.frames) != len(S.frames): D["G"] = S.copy(); return True
                J = self.generalise(G, S, None, D)
                if J is None: return False
                self.replace(S, J)
                self.collect(S)
                D["G"] = S.copy()
        return True
    exact, coarse = 2, False
    def outline(self, S):
        """everything about a state except the values of constants"""
        def sg(t):
            if isinstance(t, tuple): return tuple(sg(y) for y in t)
            if isinstance(t, P):
                if self.coarse or t.const() is not None or len(t.m) == 1 and len(t.m[0][0]) == 1 and t.m[0][0][0].op == "slot" and t.m[0][0][0].a[0][0] == "join": return "c"
                return t
            return t
        a = []
        for fr in S.frames:
            for v, t in fr.env.v.items(): a.append((fr.f.name, v, sg(t)))
        for b in S.st.d:
            root, cells = cells_of(S.st.d[b])
            a.append((b, root))
            if any(off.const() is None for off, _, _ in cells): a.append((b, S.st.d[b])); continue
            for off, tk, v in cells: a.append((b, off, tk, sg(v)))
        return (frozenset(a), frozenset(S.res.items()), frozenset(S.obj.items()), frozenset(S.tags.items()), frozenset(S.known.items()), S.fuzzy)
    def replace(self, S, J):
        S.frames, S.st, S.ctx, S.res, S.obj, S.known, S.own, S.cnt, S.tags, S.fuzzy = J.frames, J.st, J.ctx, J.res, J.obj, J.known, J.own, J.cnt, J.tags, J.fuzzy

    # ------------------------------------------------------------------ loops
    def header(self, S, fr, lp, back):
        if not self.join_point(S, merge=False): return False
        b = lp.header
        if not back:
            self.ninst += 1
            fr.loops[b] = self.ninst
            for o in list(fr.loops):
                if o is not b and o in lp.blocks: fr.loops.pop(o)
            self.instances[self.ninst] = dict(sigs={}, n=0, objs=set(), slot=S.fresh("slot", (fr.f.name, b.idx), fr.env.site))
        D = self.instances.get(fr.loops.get(b))
        if D is None: return True
        D["n"] += 1
        objs = frozenset(x for x in S.obj if x.op == "obj")
        D["objs"].add(objs)
        # concrete progress: unfold
        sig, loose = self.signature(S)
        grow = len({len(o) for o in D["objs"]})
        phv = [v for v in (_iv(fr.f, y) for y in b.insts if y.op == "phi") if isinstance(fr.env.v.get(v), P) and fr.env.v[v].const() is not None]
        ph = tuple(fr.env.v[v] for v in phv)
        seq = D.setdefault("phs", []); 
        if not seq or seq[-1] != ph: seq.append(ph)
        counted = len(seq) >= 2 and any(all(len(seq[i]) > k and len(seq[i - 1]) > k and psub(seq[i][k], seq[i - 1][k]) is psub(seq[1][k], seq[0][k]) and psub(seq[1][k], seq[0][k]).const() for i in range(1, len(seq))) for k in range(len(seq[0])))
        if self.exact > 2 and phv and len(set(seq)) < 30: return True          # paths are not merged: every one counts for itself
        if not D.get("open") and len(seq) < 70: return True
        if counted and back and len(seq) <= 10 and D["n"] <= len(seq) + 4: return True
        if counted and len(seq) > 10: D["counters"] = {v.inst.id for k, v in enumerate(phv) if all(len(q) == len(phv) and q[k] is not seq[-1][k] for q in seq[:-1])}
        if grow > self.kmax + 1: 
            self.limits.add("k: loop at line %s of %s followed for %d iterations that allocate" % (self.line(b), fr.f.name, self.kmax)); return False
        if not self.prove:
            c = D["sigs"].setdefault(sig, 0); D["sigs"][sig] = c + 1
            if c >= self.kmax or len(D["sigs"]) > 40:
                self.limits.add("k: loop at line %s of %s followed for %d iterations" % (self.line(b), fr.f.name, c)); return False
            return True
        use = loose if len(D["sigs"]) > 24 or D.get("loose") else sig
        if use is loose: D["loose"] = True
        G = D["sigs"].get(use)
        if G is None:
            if len(D["sigs"]) > 400: raise Limit("loop at line %s of %s does not settle" % (self.line(b), fr.f.name))
            if not back or D.get("last") is None or len(D["last"].frames) != len(S.frames):
                D["sigs"][use] = D["last"] = S.copy(); return True
            J = self.generalise(D["last"], S, lp, D, force=True)
        else:
            J = self.generalise(G, S, lp, D)
            if J is None: return False
        self.replace(S, J)
        self.collect(S)
        D["sigs"][use] = D["last"] = S.copy()
        return True
    INPUT = ("fgets", "fgetc", "getc", "fread", "read", "getline", "zip_fread", "fscanf", "readdir")
    def input_read(self, S):
        """loops around a call that reads input end when the input does"""
        for fr in S.frames:
            for b, lp in analyse_cfg(fr.f)[3].items():
                if fr.b in lp.blocks:
                    D = self.instances.get(fr.loops.get(b))
                    if D is not None: D["open"] = True
    def undecided_exit(self, fr, x):
        """a branch whose condition is not decided leaves a loop: the number of iterations is not known"""
        order, num, idom, loops, inner = analyse_cfg(fr.f)
        for b, lp in loops.items():
            if fr.b in lp.blocks and any(t not in lp.blocks for t in x.succ):
                D = self.instances.get(fr.loops.get(b))
                if D is not None: D["open"] = True
    def line(self, b):
        for x in b.insts:
            if x.line: return x.line
        return 0
    def signature(self, S):
        a, l = [], []
        def sg(t):
            if isinstance(t, P): c = t.const(); return ("c", c) if c is not None else "*"
            if isinstance(t, Ptr): c = t.off.const(); return ("p", t.base)
            if isinstance(t, T) and t.op in ("true", "false"): return t
            return "*"
        def lo(s): return "*" if isinstance(s, tuple) and s and s[0] == "c" else s
        for fr in S.frames:
            a.append((fr.f.name, fr.b.idx, fr.k, fr.env.site)); l.append(a[-1])
            for v, t in sorted(fr.env.v.items(), key=lambda t: id(t[0])):
                s = tuple(sg(y) for y in t) if isinstance(t, tuple) else sg(t)
                a.append((v, s)); l.append((v, lo(s)))
        for b in sorted(S.st.d):
            root, cells = cells_of(S.st.d[b])
            for off, tk, v in cells:
                if off.const() is None: continue
                s = sg(v)
                a.append((b, off, s)); l.append((b, off, lo(s)))
        r = (frozenset(S.res.items()), frozenset(S.obj), frozenset(S.tags.items()))
        return (tuple(a[:1]) + (frozenset(a),) + r), (tuple(l[:1]) + (frozenset(l),) + r)
    def covered(self, G, S, D):
        """S is an instance of G: some values of G's slots give S"""
        mine = D.setdefault("mine", set())
        mp = {}
        pairs = []
        for i, fr in enumerate(G.frames):
            fs = S.frames[i]
            if set(fr.env.v) - set(fs.env.v): return None
            for v, a in fr.env.v.items():
                b = fs.env.v[v]
                if isinstance(a, tuple): pairs += list(zip(a, b))
                else: pairs.append((a, b))
        for b in set(G.st.d) | set(S.st.d):
            ca, cb = G.st.get(b), S.st.get(b)
            if ca is cb and not (deep(ca) & mine): continue
            ra, sa = cells_of(ca); rb, sb = cells_of(cb)
            if not (ra.op == "minit" and ra.a[0].op == "slot" and ra.a[0] in mine): 
                pairs.append((ra, rb))
                if any(o.const() is None for o, _, _ in sa + sb): pairs.append((ca, cb)); continue
            for off, tk in dict.fromkeys((o, t) for o, t, _ in sa if o.const() is not None):
                if isvec(tk): continue
                pairs.append((read(ca, off, tk, G.ctx), read(cb, off, tk, S.ctx)))
            free = ra.op == "minit" and ra.a[0].op == "slot" and ra.a[0] in mine     # any contents, but for the cells
            if free and any(ra.a[0] in deep(z) for z in G.ctx.facts + tuple(G.ctx.bools) + G.ctx.disj): return None
            if ra is rb and not free:
                for off, tk in dict.fromkeys((o, t) for o, t, _ in sb):
                    if not isvec(tk): pairs.append((read(ca, off, tk, G.ctx), read(cb, off, tk, S.ctx)))
        rest = []
        for a, b in pairs:
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base is b.base: a, b = a.off, b.off
            at = None
            if isinstance(a, P) and len(a.m) == 1 and a.m[0][1] == 1 and len(a.m[0][0]) == 1: at = a.m[0][0][0]
            if at is not None and at in mine and isinstance(b, P):
                if at not in mp: mp[at] = b; continue
            elif isinstance(a, Ptr) and a.base.op == "slot" and a.base in mine and isinstance(b, Ptr): continue
            elif isinstance(a, T) and a.op == "slot" and a in mine: continue
            elif is_bool(a) and a.op == "bool" and a.a[0] in mine: continue
            rest.append((a, b))
        for a, b in rest:
            if a is None or b is None:
                if a is not b: return None
                continue
            if (subst(a, mp) if mp else a) is not b:
                if isinstance(a, P) and isinstance(b, P) and S.ctx.eq(subst(a, mp), b): continue
                return None
        Sf = set(S.ctx.facts)
        for f in G.ctx.facts:
            h = subst(f, mp)
            if h not in Sf and not S.ctx.ge0(h): return None
        for z in list(G.ctx.bools) + list(G.ctx.disj):
            if z.op in ("ge0", "eq0") or z.op == "not" and z.a[0].op in ("ge0", "eq0") or z.op in ("and", "or"):
                if S.ctx.implies(subst(z, mp)) is not True: return None
            elif subst(z, mp) not in S.ctx.bools: return None
        for b, k in G.known.items():
            for q, c in k:
                q2 = subst(q, mp)
                if not any(c2 == c and (q3 is q2 or S.ctx.eq(q3, q2)) for q3, c2 in S.known.get(b, ())): return None
        return mp
    def generalise(self, G, S, lp, D, force=False):
        """least state above G and S in the template domain; None when S is already covered by G. With `force` the state S alone
        is generalised: values that changed since G become slots"""
        if not force and self.covered(G, S, D) is not None: return None
        mine = D.setdefault("mine", set())
        D["gen"] = gen = D.get("gen", 0) + 1
        slots = []                      # (slot atom, value in G, value in S, base of a pointer offset)
        sk = D["slot"]; top = len(S.frames) - 1; counters = D.get("counters", ())
        def slot(name, a, b, tk, base=None):
            at = mk("slot", sk, name, gen, tk if isinstance(tk, (str, int)) else repr(tk))
            slots.append((at, a, b, base)); mine.add(at)
            return at
        def join(a, b, name, tk):
            if a is b: return a
            if isinstance(a, tuple):
                return tuple(join(p, q, name + (i,), None) for i, (p, q) in enumerate(zip(a, b))) if isinstance(b, tuple) and len(a) == len(b) else a
            if isinstance(a, P) and isinstance(b, P): 
                if force and b.const() is not None and not (name[0] == "v" and name[1] == top and name[2] in counters): return b
                return A(slot(name, a, b, tk or "i64"))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base is b.base:
                if force and b.off.const() is not None: return b
                return mkptr(a.base, A(slot(name, a.off, b.off, "i64", a.base)))
            if force: return b
            if is_bool(a) and is_bool(b): return mk("bool", slot(name, a, b, "b"))
            if isinstance(a, Ptr) or isinstance(b, Ptr): return mkptr(slot(name, a, b, "p"))
            return slot(name, a, b, "f")
        J = S.copy() if force else G.copy()
        J.trace, J.fuzzy = S.trace, G.fuzzy or S.fuzzy
        for i, fr in enumerate(J.frames):
            fg, fs = G.frames[i], S.frames[i]
            fr.loops = dict(fs.loops)
            for v in list(fr.env.v):
                if v not in fs.env.v or v not in fg.env.v: 
                    if not force: del fr.env.v[v]
                    continue
                fr.env.v[v] = join(fg.env.v[v], fs.env.v[v], ("v", i, v.inst.id if v.inst is not None else v.name), tkey(v.ty) if v.ty is not None and v.ty.k in ("int",) else None)
        for b in sorted(set(G.st.d) | set(S.st.d)):
            ca, cb = G.st.get(b), S.st.get(b)
            if ca is cb: continue
            if force and (b not in S.st.d or b not in G.st.d): continue
            ra, sa = cells_of(ca); rb, sb = cells_of(cb)
            symb = ra is not rb or any(o.const() is None for o, _, _ in sa + sb)
            if force and symb: continue
            root = ra if not symb else mk("minit", slot(("m", b), None, None, "m"))
            ch = root
            for off, tk in dict.fromkeys((o, t) for o, t, _ in sb[::-1] + sa[::-1] if o.const() is not None):
                if isvec(tk): continue
                va, vb = read(ca, off, tk, G.ctx), read(cb, off, tk, S.ctx)
                if symb and not (isinstance(va, (P, Ptr)) and isinstance(vb, (P, Ptr))): continue
                if va is not vb and any(o.const() is None for o, _, _ in sb): continue
                ch = mk("mstore", ch, off, tk, join(va, vb, ("c", b, off), tk))
            J.st.d[b] = ch
        if not force:
            for b in list(J.known):
                k = frozenset(J.known[b]) & frozenset(S.known.get(b, ()))
                if k: J.known[b] = k
                else: J.known.pop(b)
        J.cnt = {k: max(G.cnt.get(k, 0), S.cnt.get(k, 0)) for k in set(G.cnt) | set(S.cnt)}
        slots = [t for t in slots if isinstance(t[1], P) and isinstance(t[2], P)]
        mp = {at: b for at, a, b, base in slots}
        mg = {at: a for at, a, b, base in slots}
        old = {}                        # a slot of G -> the slot that replaces it
        for at, a, b, base in slots:
            if len(a.m) == 1 and a.m[0][1] == 1 and len(a.m[0][0]) == 1 and a.m[0][0][0] in mine: old[a.m[0][0][0]] = A(at)
        def inS(p): return S.ctx.ge0(subst(p, mp))
        def inG(p): return force or G.ctx.ge0(subst(p, mg))
        Sf = set(S.ctx.facts)
        if force: facts, bools, disj = list(S.ctx.facts), set(S.ctx.bools), list(S.ctx.disj)
        else:
            facts = [f for f in G.ctx.facts if f in Sf or S.ctx.ge0(f)]
            bools = set(G.ctx.bools & S.ctx.bools)
            disj = [x for x in G.ctx.disj if x in S.ctx.disj]
        base_ctx = Ctx(facts, bools, disj)
        def offer(c):
            nonlocal base_ctx
            if c.const() is None and inS(c) and inG(c) and not base_ctx.ge0(c): facts.append(c); base_ctx = Ctx(facts, bools, disj)
        if old:
            for f in G.ctx.facts:
                if deep(f) & set(old): offer(subst(f, old))
        fresh = [t for t in slots if t[0] not in {list(x.atoms())[0] for x in old.values()}]
        if fresh or force:
            thr = self.thresholds(S, lp) if lp is not None else []
            for at, a, b, base in (slots if force else fresh):
                v = A(at)
                if not force:
                    for c in (psub(v, a), psub(a, v)): offer(c)
                    if lp is None:
                        for c in (psub(v, b), psub(b, v)): offer(c)
                offer(v)
                for e in thr:
                    for c in (psub(e, v), psub(padd(e, C(-1)), v), psub(padd(e, ONE), v), psub(v, e)): offer(c)
                if base is not None:
                    for Pp, c in J.known.get(base, ()):
                        offer(psub(Pp, v)); offer(psub(psub(Pp, v), ONE))
                    if base in J.obj:
                        offer(psub(J.obj[base][0], v)); offer(psub(psub(J.obj[base][0], v), ONE))
            if not force:
                for at, a, b, base in fresh:
                    for at2, a2, b2, base2 in slots:
                        if at2 is at: continue
                        d1, d2 = psub(b, a).const(), psub(b2, a2).const()
                        if d1 and d2 and d1 % d2 == 0:
                            e = psub(psub(A(at), a), pscale(psub(A(at2), a2), d1 // d2))
                            offer(e); offer(psub(ZERO, e))
        J.ctx = base_ctx
        return J
    def thresholds(self, S, lp):
        out = []
        fr = S.frames[-1]
        for b in lp.blocks:
            for x in b.insts:
                if x.op == "icmp":
                    for v in x.ops:
                        if v.kind == "int": out.append(C(v.v))
                        elif v in fr.env.v and isinstance(fr.env.v[v], P) and (v.inst is None or v.inst.block not in lp.blocks): out.append(fr.env.v[v])
                        elif v.kind == "inst" and v.inst.block in lp.blocks and v.inst.op == "load":
                            try:
                                p = self.val(fr.env, v.inst.ops[0])
                                if isinstance(p, Ptr):
                                    y = read(S.st.get(p.base), p.off, tkey(v.inst.ty), S.ctx)
                                    if isinstance(y, P): out.append(y)
                            except Exception: pass
        return list(dict.fromkeys(out))[:12]

    # ------------------------------------------------------------------ calls
    def step_call(self, S, fr, x):
        env = fr.env
        cal = x.callee
        if cal.kind == "asm":
            fr.k += 1
            if x.ty.k != "void": env.v[_iv(fr.f, x)] = self._undef(x.ty)
            return None
        if cal.kind == "func" and cal.name.startswith("llvm.dbg"): fr.k += 1; return None
        args = [None if a.kind == "meta" else self.val(env, a) for a in x.args]
        target = mkptr(mk("func", cal.name)) if cal.kind == "func" else self.resolve(S, self.val(env, cal))
        if not isinstance(target, Ptr) or target.base.op != "func":
            h = self.M.get("icall")
            if isinstance(target, Ptr) and target.base is NULLB: self.report("null", "a null function pointer is called", x); raise Stop()
            if h:
                r = h(self, S, args, x, target)
                if r is not NotImplemented: return r
            return self.unknown(S, "a function pointer", args, x)
        name = target.base.a[0]
        f = self.mod.funcs.get(name)
        base = name.split(".")[0] if not name.startswith("llvm.") else name
        args = [self.resolve(S, a) if isinstance(a, (T, Ptr)) and (isinstance(a, Ptr) or a.op == "pite") else a for a in args]
        for p in ("__isoc23_", "__isoc99_"):
            if base.startswith(p): base = base[len(p):]
        h = self.M.get(name) or self.M.get(base)
        if h is not None:
            r = h(self, S, args, x)
            if r is not NotImplemented:
                if not self.faults and isinstance(r, list): r = [o for o in r if o.label is None] or r
                return r
        if f is not None and not f.decl:
            self.push(S, f, args[:len(f.args)], x, tuple(args[len(f.args):]))
            return None
        if name.startswith("llvm."):
            if name.startswith(("llvm.memcpy", "llvm.memmove")):
                d, s, n = args[:3]
                self.copy(S, d, s, n, x); return [Out(d if x.ty.k != "void" else None)]
            if name.startswith("llvm.memset"):
                self.fill(S, args[0], args[1], args[2], x); return [Out(None)]
            if ".with.overflow" in name: return [Out(self.overflow(S, name, args))]
            if name.startswith(("llvm.va_start", "llvm.va_end", "llvm.va_copy")):
                h = self.M.get(".".join(name.split(".")[:2]))
                if h: return h(self, S, args, x)
                return [Out(None)]
            if name.startswith(("llvm.stacksave",)): return [Out(mkptr(mk("stk")))]
            if name.startswith(("llvm.stackrestore", "llvm.lifetime", "llvm.assume", "llvm.prefetch", "llvm.experimental")): return [Out(None)]
            v = self.intrinsic(env, x, name, args, S.st, S.ctx, self.key(x))
            return [Out(v)]
        if name in FCALLS: return [Out(self.fc_norm(FCALLS[name], args))]
        return self.unknown(S, name, args, x)
    def unknown(self, S, name, args, x):
        """a function nothing is known about: may change what its arguments point to"""
        S.fuzzy = S.fuzzy or "%s is not modelled" % name
        for a in args:
            if isinstance(a, Ptr) and a.base.op in ("alloca", "obj"):
                S.st.d[a.base] = mk("minit", mk("ext", "unk", S.fresh("unk", self.key(x), a.base)))
                S.known.pop(a.base, None)
                if a.base in S.res and S.res[a.base][1] == HELD: S.res[a.base] = (S.res[a.base][0], MOVED)
        if x.ty.k == "void": return [Out(None)]
        return [Out(self.opaque(S, x, name))]
    def opaque(self, S, x, name):
        t = mk("ext", name, S.fresh(name, self.key(x)), x.ty.bits if x.ty.k == "int" else 0)
        return self.opaque_ret(x.ty, t)
    def overflow(self, S, name, args):
        a, b = args
        op = name.split(".")[1]
        bits = int(name.split(".i")[-1])
        p = {"umul": pmul, "smul": pmul, "uadd": padd, "sadd": padd, "usub": psub, "ssub": psub}[op](a, b)
        u = op[0] == "u"
        if u:
            for q in (a, b):
                if not S.ctx.ge0(q):
                    if S.ctx.ge0(psub(C(-1), q)): S.fuzzy = S.fuzzy or "negative operand of an unsigned product"
                    else: raise Fork(ge0(q))
        lo, hi = (0, (1 << bits) - 1) if u else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
        inside = band(ge0(psub(p, C(lo))), ge0(psub(C(hi), p)))
        if op == "umul": inside = ge0(psub(C(hi), p))
        r = S.ctx.implies(inside)
        if r is None: raise Fork(inside)
        if r and op == "umul" and not S.ctx.ge0(p): S.ctx = S.ctx.addf([p])
        return (p if r else A(mk("tr", bits, p)), FALSE if r else TRUE)
    def copy(self, S, d, s, n, x):
        self.touch(S, "load", s, n, x); self.touch(S, "store", d, n, x)
        if not isinstance(d, Ptr) or not isinstance(s, Ptr): raise Unsupported("memcpy through conditional pointer")
        if d.base is NULLB or s.base is NULLB: return
        self.forget(S, d.base, d.off, n)
        c = n.const()
        src = S.st.get(s.base)
        if c is not None and c <= 256 and d.off.const() is not None and s.off.const() is not None:
            # cell by cell, so that pointers and sizes stay visible
            root, cells = cells_of(src)
            st = [(o, tk, v) for o, tk, v in cells if o.const() is not None]
            if len(st) == len(cells):
                ch = mcopy(S.st.get(d.base), d.off, n, root, s.off) if not (root.op == "mundef") else S.st.get(d.base)
                if d.off.const() == 0 and S.obj.get(d.base, (None,))[0] is not None and S.obj[d.base][0].const() == c and root.op != "mundef" and s.off.const() == 0: ch = root
                for o, tk, v in reversed(st):
                    oo = o.const() - s.off.const()
                    if oo >= 0 and oo + tsize(tk) <= c: ch = self.mstore(ch, padd(d.off, C(oo)), tk, v)
                S.st.d[d.base] = ch
                self.copyknown(S, d, s, n)
                return
        S.st.d[d.base] = mcopy(S.st.get(d.base), d.off, n, src, s.off)
        self.copyknown(S, d, s, n)
    def copyknown(self, S, d, s, n):
        k = set(S.known.get(s.base, ()))
        cs = self.cstr(mkptr(s.base, ZERO))
        if cs is not None: k.add((C(len(cs)), 0))
        new = {(padd(psub(P_, s.off), d.off), c) for P_, c in k if S.ctx.ge0(psub(P_, s.off)) and S.ctx.ge0(psub(psub(padd(s.off, n), P_), ONE))}
        if new: S.known[d.base] = S.known.get(d.base, frozenset()) | frozenset(new)
    def fill(self, S, d, v, n, x):
        self.touch(S, "store", d, n, x)
        if isinstance(d, Ptr) and d.base is not NULLB:
            self.forget(S, d.base, d.off, n)
            S.st.d[d.base] = mk("mfill", S.st.get(d.base), d.off, n, v)
            if v.const() == 0 and S.ctx.ge0(psub(n, ONE)):
                S.known[d.base] = S.known.get(d.base, frozenset()) | {(d.off, 0), (psub(padd(d.off, n), ONE), 0)}

def _vid(t): return tuple(_vid(y) for y in t) if isinstance(t, tuple) else t
def cells_of(ch):
    """(root, stores outermost first) of a memory chain"""
    out = []
    while ch.op == "mstore":
        out.append((ch.a[1], ch.a[2], ch.a[3])); ch = ch.a[0]
    return ch, out

# ---------------------------------------------------------------------- witnesses
def find_witness(ctx, goals, E, tries=400):
    import random
    rng = random.Random(11)
    facts = list(ctx.facts)
    lits = [b for b in ctx.bools if b.op in ("ge0", "eq0") or b.op == "not" and b.a[0].op in ("ge0", "eq0")]
    ats = set()
    for p in facts + list(goals): ats |= p.atoms()
    for b in lits: ats |= (b.a[0] if b.op != "not" else b.a[0].a[0]).atoms()
    # atoms built from others are computed, the rest are chosen
    def parts(at):
        if at.op == "tr": return [at.a[1]]
        if at.op in ("zext8", "zext16", "fdiv"): return [at.a[0]]
        if at.op in ("imax", "idiv", "imul"): return list(at.a)
        if at.op == "iop": return [at.a[1], at.a[2]]
        if at.op in ("ctype", "sdiv", "srem", "tr8", "tr16"): return [at.a[0]]
        if at.op == "ext" and at.a[0] == "numlen" and _digits(at): return [at.a[1][1]]
        return None
    free, comp, todo = set(), {}, list(ats)
    while todo:
        at = todo.pop()
        if at in free or at in comp: continue
        ps = parts(at)
        if ps is None: free.add(at)
        else:
            comp[at] = ps
            for p in ps: todo += list(p.atoms())
    for at in free:
        if at.op in ("ite",): return None
    loads = [a for a in free if a.op == "ldm"]
    texts = [a for a in free if a.op == "slen" and all(y in free or y in comp for y in a.a[1].atoms())]
    text = [(E.S.st.get(b), q, c) for b, k in (E.S.known.items() if loads and getattr(E, "S", None) else ()) for q, c in k if E.S.st.get(b) is not None and all(a in free or a in comp for a in q.atoms())]
    # only what is connected with the goal matters for the choice of values
    free = sorted(free)
    consts = {0, 1, 2, 3, 5, 9, 64, 200, 65535}
    if any(abs(p.coef(())) >= 1 << 40 for p in facts + list(goals)): consts |= {1 << 32, (1 << 33) + 1, (1 << 62) + 1, (1 << 63) - 1}
    for p in facts + list(goals):
        c = p.coef(())
        if abs(c) < 1 << 40: consts |= {abs(c), abs(c) + 1, max(0, abs(c) - 1)}
    if any(a.op == "tr" for a in comp): consts |= {1 << 31, 1 << 32, (1 << 32) + 7}
    if any(a.op == "ext" for a in comp): consts |= {10 ** k for k in (1, 2, 9, 18)}
    consts = sorted(consts)
    def value(p, asg):
        s = 0
        for mo, c in p.m:
            v = c
            for a in mo: v *= atom(a, asg)
            s += v
        return s
    def atom(a, asg):
        if a in asg: return asg[a]
        if a.op == "tr":
            n = a.a[0]; v = value(a.a[1], asg) & ((1 << n) - 1)
            r = v - (1 << n) if n < 64 and v >> (n - 1) else v
        elif a.op == "zext8": r = value(a.a[0], asg) & 255
        elif a.op == "zext16": r = value(a.a[0], asg) & 65535
        elif a.op == "fdiv": r = value(a.a[0], asg) // a.a[1]
        elif a.op == "imax": r = max(value(a.a[0], asg), value(a.a[1], asg))
        elif a.op == "imul": r = value(a.a[0], asg) * value(a.a[1], asg)
        elif a.op == "ctype": r = _ctype(value(a.a[0], asg))
        elif a.op == "ext": r = len(str(value(a.a[1][1], asg)))
        elif a.op in ("tr8", "tr16"):
            n = int(a.op[2:]); v = value(a.a[0], asg) & ((1 << n) - 1); r = v - (1 << n) if v >> (n - 1) else v
        elif a.op in ("sdiv", "srem", "idiv", "iop"): r = _divide(a, lambda q: value(q, asg) if isinstance(q, P) else q)
        else: raise KeyError(a)
        return r
    def odd(asg):
        """the contents of memory contradict each other"""
        seen, bad = {}, 0
        val = lambda q: value(q, asg)
        try:
            for a in loads:
                k = _cell(a.a[0], val(a.a[1]), a.a[2], val)
                if k is None: bad += 1; continue
                if k[0] == "v": bad += k[1] != asg[a]; continue
                if seen.setdefault(k, asg[a]) != asg[a]: bad += 1
            ks = sorted(seen, key=repr)
            for i, k in enumerate(ks):
                for m in ks[i + 1:]:
                    if k[1] is m[1] and k[3] != m[3] and k[2] < m[2] + tsize(m[3]) and m[2] < k[2] + tsize(k[3]): bad += 1
            for a in texts:
                o, n = val(a.a[1]), asg[a]
                for k, v in seen.items():
                    if k[3] != "i8": continue
                    c0 = _cell(a.a[0], k[2], "i8", val)
                    if c0 == k and (o <= k[2] < o + n and v == 0 or k[2] == o + n and v != 0): bad += 1
            for ch, q, c in text:
                k = _cell(ch, val(q), "i8", val)
                if k is not None and k[0] == "m" and seen.get(k, c) != c: bad += 1
        except (KeyError, ZeroDivisionError): return 1
        return bad
    def sat(asg):
        try: return sat_(asg)
        except (KeyError, ZeroDivisionError): return 50
    def sat_(asg):
        bad = 0
        for f in facts:
            v = value(f, asg)
            if v < 0: bad += 1
        for b in lits:
            n = b.op == "not"; z = b.a[0] if n else b
            v = value(z.a[0], asg)
            t = v >= 0 if z.op == "ge0" else v == 0
            if t == n: bad += 1
        for d in ctx.disj:
            ok = False
            for y in _flator(d):
                if all(z.op not in ("ge0", "eq0") or (value(z.a[0], asg) >= 0 if z.op == "ge0" else value(z.a[0], asg) == 0) for z in _flatand(y)): ok = True
            if not ok: bad += 1
        return bad or (odd(asg) if loads else 0)
    def violated(asg):
        try: return any(value(g, asg) < 0 for g in goals)
        except (KeyError, ZeroDivisionError): return False
    best = None
    for k in range(12):
        asg = {a: rng.choice(consts) for a in free}
        if k == 0: asg = {a: 0 for a in free}
        if k == 1: asg = {a: 1 for a in free}
        if k == 2: asg.update((b, 10 ** 18) for a, ps in comp.items() if a.op == "ext" for q in ps for b in q.atoms() if b in asg)
        cost = lambda g: sat(g) * 2 + (0 if violated(g) else 1)
        c = cost(asg)
        for it in range(tries // 2):
            if c == 0: return {show(A(a), 3): v for a, v in list(asg.items())[:8]}
            if not free: break
            a = rng.choice(free)
            old = asg[a]
            bestv, bc = old, c
            for v in [old + d for d in (-1, 1)] + rng.sample(consts, min(8, len(consts))) + _fixes(a, asg, facts, goals, lits, value):
                asg[a] = v
                n = cost(asg)
                if n < bc or (n == bc and rng.random() < 0.3): bestv, bc = v, n
            asg[a] = bestv; c = bc
        if c == 0: return {show(A(a), 3): v for a, v in list(asg.items())[:8]}
    return None
def _digits(at):
    """the length of a printed number, which follows from the number"""
    t = at.a[1]
    return len(t) == 2 and t[0] in ("%zu", "%lu", "%llu", "%zd", "%ld", "%lld", "%d", "%u", "%i") and isinstance(t[1], P)
def _ctype(v):
    if not 0 <= v < 128: return 0
    c = chr(v)
    r = 0
    for bit, t in ((8, c.isupper()), (9, c.islower()), (10, c.isalpha()), (11, c.isdigit()), (12, c in "0123456789abcdefABCDEF"), (13, c in " \t\n\v\f\r"), (14, 32 <= v < 127),
                   (15, 33 <= v < 127), (0, c in " \t"), (1, v < 32 or v == 127), (2, 33 <= v < 127 and not c.isalnum()), (3, c.isalnum())):
        if t: r |= 1 << bit
    return r - 65536 if r >= 32768 else r
def _divide(a, val):
    if a.op in ("sdiv", "idiv", "srem"):
        x, y = val(a.a[0]), val(a.a[1]); q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
        return q if a.op != "srem" else x - q * y
    k, bits = a.a[0], a.a[3]; m = (1 << bits) - 1
    x, y = val(a.a[1]), val(a.a[2]); ux, uy = x & m, y & m
    if k in ("sdiv", "srem"): q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q; return q if k == "sdiv" else x - q * y
    if k == "ashr": return x >> min(uy, 64)
    r = {"and": ux & uy, "or": ux | uy, "xor": ux ^ uy, "shl": (ux << min(uy, 64)) & m, "lshr": ux >> min(uy, 64)}.get(k)
    if k == "udiv": return ux // uy
    if k == "urem": return ux % uy
    if r is None: raise KeyError(a)
    return r - (1 << bits) if bits < 64 and r >> (bits - 1) else r
def _cell(ch, off, tk, val):
    """what a load of type tk at the number `off` of the memory `ch` sees: ("v", number), ("m", root, offset, type) or None"""
    while True:
        if ch.op == "mstore":
            o, t = val(ch.a[1]), ch.a[2]
            if o == off and t == tk and isinstance(ch.a[3], P): return ("v", val(ch.a[3]))
            if o < off + tsize(tk) and off < o + tsize(t): return None
            ch = ch.a[0]
        elif ch.op == "mcopy":
            o, n = val(ch.a[1]), val(ch.a[2])
            if o <= off and off + tsize(tk) <= o + n: off, ch = off - o + val(ch.a[4]), ch.a[3]
            elif off + tsize(tk) <= o or o + n <= off: ch = ch.a[0]
            else: return None
        elif ch.op == "mfill":
            o, n = val(ch.a[1]), val(ch.a[2])
            if o <= off and off + tsize(tk) <= o + n: return ("v", 0) if isinstance(ch.a[3], P) and ch.a[3].const() == 0 else None
            if off + tsize(tk) <= o or o + n <= off: ch = ch.a[0]
            else: return None
        elif ch.op in ("mundef", "minit"): return ("m", ch, off, tk)
        else: return None
def _fixes(a, asg, facts, goals, lits, value):
    """values of one unknown that make a single linear condition tight"""
    out = []
    for p in list(facts) + list(goals) + [(b.a[0] if b.op != "not" else b.a[0].a[0]) for b in lits]:
        l = plin(p, a)
        if l is None: continue
        try: c, r = value(l[0], asg), value(l[1], asg)
        except (KeyError, ZeroDivisionError): continue
        if c:
            q = -r // c
            out += [q, q + 1, q - 1]
        if len(out) > 30: break
    return out
def trace_of(tr):
    out, t = [], tr
    while t is not None: out.append(t[0]); t = t[1]
    return out[::-1]

_pj = {}
def project(ctx, live):
    """the conditions on what is live: other unknowns are eliminated (Fourier-Motzkin where cheap, otherwise forgotten)"""
    facts = list(dict.fromkeys(ctx.facts))
    logic = []
    need = set(live)
    for z in list(ctx.bools) + list(ctx.disj):
        if z.op in ("ge0", "eq0"): continue                      # also among the facts
        if _known_to(z, live): logic.append((z, deep(z)))
    for z, d in logic: need |= d
    facts = [f for f in facts if f.const() is None]
    by = {}
    for f in facts:
        for at in f.atoms():
            if at not in need and not _known_to(at, live): by.setdefault(at, []).append(f)
    fs = dict.fromkeys(facts)
    for at in sorted(by):
        mine = [f for f in fs if at in f.atoms()]
        if not mine: continue
        lo, up, ok = [], [], True
        for f in mine:
            l = plin(f, at)
            c = l[0].const() if l is not None else None
            if c is None: ok = False; continue
            (lo if c > 0 else up).append((abs(c), f, l[1]))
        for f in mine: fs.pop(f, None)
        if ok and len(lo) * len(up) <= 12:
            for c1, f1, r1 in lo:
                for c2, f2, r2 in up:
                    g = _gcd(int(c1), int(c2)) or 1
                    n = padd(pscale(r1, c2 // g), pscale(r2, c1 // g))
                    if n.const() is None: fs[n] = None
    # of facts that differ in the constant only the strongest is needed
    best = {}
    for f in fs:
        c = f.coef(()); k = psub(f, C(c))
        if k not in best or c < best[k]: best[k] = c
    out = [padd(k, C(c)) for k, c in best.items()]
    keepb = [z for z, d in logic if z in ctx.bools]
    keepd = [z for z, d in logic if z in ctx.disj]
    bs = [z for z in ctx.bools if z.op in ("ge0", "eq0") and _known_to(z, need)]
    return Ctx(out, keepb + bs, keepd)
from math import gcd as _gcd
_DERIVED = ("ld", "ldm", "iop", "zext8", "zext16", "ctype", "tr", "byte", "peq", "bool", "fcmp", "plt", "addr", "ite", "fdiv", "imax")
def _known_to(z, live):
    """everything the term is built from is live"""
    return all(y in live or y.op in _DERIVED or y.op in _CONST or y.op in ("mstore", "mseg") for y in deep(z))
_CONST = ("cstr", "global", "func", "null", "mconst", "minit", "mundef", "mcopy", "mfill", "cast")
