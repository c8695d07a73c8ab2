"""OpenMP regions: the outlined functions are summarised like any other code; accesses of different iterations must not conflict"""
from network import *
from network import _ptrs

class Par:
    """follows parallel regions of one analysis run and collects their accesses"""
    def __init__(self, unroll=None):
        self.depth = 0; self.crit = 0; self.items = []; self.shared = None; self.nloops = 0; self.regions = 0; self.unroll = unroll; self.seen = set()
        self.static = 0
    def hooks(self):
        def fork(I, ev, st, ctx, key):
            f = ev.args[2]
            if not (isinstance(f, Ptr) and f.base.op == "func" and f.base.a[0] in I.mod.funcs): raise Unsupported("parallel region of an undetermined function")
            g, b = mk("obj", ("gtid", key)), mk("obj", ("btid", key))
            for o in (g, b):
                I.objinfo[o] = dict(kind="heap", size=C(4), align=4, inst=ev.inst, name="gtid"); st.d[o] = mk("mfill", mk("mundef", o), ZERO, C(4), ZERO)
            old = (self.shared, self.nloops, I.unroll)
            self.shared = set(I.objinfo) - {g, b}; self.nloops = len(I.loopstack); self.depth += 1; self.regions += 1
            if self.unroll is not None: I.unroll = self.unroll
            try: _, s2 = I.call(I.mod.funcs[f.base.a[0]], [mkptr(g), mkptr(b)] + list(ev.args[3:]), st, ctx, (key, "par"))
            finally: self.depth -= 1; self.shared, self.nloops, I.unroll = old
            st.d = s2.d
            return None
        def reduce(I, ev, st, ctx, key): self.crit += 1; return ONE
        def endred(I, ev, st, ctx, key): self.crit -= 1; return None
        def crit(I, ev, st, ctx, key): self.crit += 1; return None
        nop = lambda *a: None
        def init(I, ev, st, ctx, key): self.static += 1; return None
        return {"__kmpc_fork_call": fork, "__kmpc_for_static_init_4": init, "__kmpc_for_static_init_4u": init, "__kmpc_for_static_init_8": init, "__kmpc_for_static_init_8u": init, "__kmpc_for_static_fini": nop,
                "__kmpc_reduce_nowait": reduce, "__kmpc_reduce": reduce, "__kmpc_end_reduce_nowait": endred, "__kmpc_end_reduce": endred, "__kmpc_critical": crit, "__kmpc_end_critical": endred,
                "__kmpc_barrier": nop, "__kmpc_push_num_threads": nop, "__kmpc_global_thread_num": lambda *a: ZERO, "omp_get_thread_num": lambda *a: ZERO}
    def __call__(self, a):
        if self.depth != 1 or self.crit: return
        b = a.base
        if b.op in ("alloca", "obj") and b not in self.shared: return       # created inside: private to the thread
        if b.op == "alloca" and self.shared is None: return
        k = (a.inst, a.base, a.off, a.kind, a.ctx.key)
        if k in self.seen: return
        self.seen.add(k)
        lv = a.loops[self.nloops] if len(a.loops) > self.nloops else None
        self.items.append((a, lv))
    def decide(self, ch, name, asgs, ctxfacts=()):
        by = {}
        for a, lv in self.items:
            by.setdefault(a.base, []).append((a, lv))
        for base, l in by.items():
            ws = [x for x in l if x[0].kind in ("store", "write")]
            if not ws: continue
            w = "%s:%s (%s)" % (rel(ws[0][0].inst.file), ws[0][0].inst.line, ws[0][0].fn)
            nm = "%s: parallel accesses to %s do not conflict" % (name, objname(base))
            if all(disjoint_rows(a, lv, l) for a, lv in l): ch.ok(nm, "each iteration stays in its own row (linear entailment)", w); continue
            hit, why = None, None
            for a, p in ws:
                for b, q in l:
                    r = conflict(a, p, b, q, asgs)
                    if r is None: why = "accesses of line %s and %s" % (a.inst.line, b.inst.line)
                    elif r: hit = (a, b, r); break
                if hit: break
            if hit:
                a, b, r = hit
                ch.violate(nm, "%s:%s (%s)" % (rel(a.inst.file), a.inst.line, a.fn), "two iterations of the parallel loop conflict: the %s here and the %s at line %s touch the same bytes of %s unsynchronised, e.g. %s" % (
                    a.kind, b.kind, b.inst.line, objname(base), r))
            elif why: ch.undecided(nm, why, w)
            else: ch.ok(nm, "no two iterations overlap at any sampled size", w)
def objname(b):
    return show(b, 3) if b.op != "alloca" else "a local variable of the caller"
def disjoint_rows(a, lv, l):
    """off = S*lv + rest with 0 <= rest and rest + size <= S, the same S for every access of the object"""
    if lv is None: return False
    S = None
    for b, q in l:
        if q is None: return False
        c, r = coeff_of(b.off, q)
        if c is None: return False
        if S is None: S = c
        elif S is not c: return False
        if not (b.ctx.ge0(r) and b.ctx.ge0(psub(psub(c, r), b.size))): return False
    return S is not None
def coeff_of(p, at):
    """p = c*at + r with c, r free of at"""
    at = at if not isinstance(at, P) else at.m[0][0][0]
    c, r = ZERO, ZERO
    for mo, k in p.m:
        n = sum(1 for x in mo if x is at)
        if n > 1: return None, None
        rest = tuple(x for x in mo if x is not at)
        t = C(k)
        for x in rest: t = pmul(t, A(x))
        if n: c = padd(c, t)
        else: r = padd(r, t)
        if any(at in set(subterms(x)) for x in rest): return None, None
    return c, r
def conflict(a, p, b, q, asgs, tries=400):
    """sizes and two different iterations with overlapping byte ranges; False: none found; None: cannot evaluate"""
    rng = random.Random(11)
    def names(x):
        s = int_atoms(x.off) | int_atoms(x.size)
        for f in x.ctx.facts: s |= int_atoms(f)
        for t in x.ctx.bools: s |= {y for u in subterms(t) if isinstance(u, P) for mo, _ in u.m for y in mo if y.op in ("sym", "lv")}
        return s
    na, nb = names(a), names(b)
    seen = 0
    for k in range(tries):
        top = rng.choice((1, 2, 4, 9))
        base = dict(envs(rng.choice(asgs))) if asgs and k % 2 == 0 else {}
        for x in na | nb:
            if x.op == "sym" and x not in base: base[x] = rng.randint(0, top + 2)
        ea, eb = dict(base), dict(base)
        for e, s in ((ea, na), (eb, nb)):
            for x in s:
                if x.op == "lv": e[x] = rng.randint(0, top)
        if p is not None:
            if p not in ea: ea[p] = rng.randint(0, top)
        if q is not None:
            if q not in eb: eb[q] = rng.randint(0, top)
        if p is not None and q is not None and p is q and ea[p] == eb[q]: continue
        try:
            va, vb = Ev(Oracle((k, "r")), ea), Ev(Oracle((k, "r")), eb)
            if not all(va.ev(f) >= 0 for f in a.ctx.facts) or not all(va.ev(t) for t in a.ctx.bools): continue
            if not all(vb.ev(f) >= 0 for f in b.ctx.facts) or not all(vb.ev(t) for t in b.ctx.bools): continue
            seen += 1
            oa, sa, ob, sb = va.ev(a.off), va.ev(a.size), vb.ev(b.off), vb.ev(b.size)
            if sa > 0 and sb > 0 and oa < ob + sb and ob < oa + sa: return {str(x.a[0]): v for x, v in base.items()} or {"any": "size"}
        except (Unknown, OutOfSpec): return None
    return False if seen else None
def omodule(isa="avx512"):
    import training
    return training.tmodule(isa, openmp=True)

def _run(ch, lab, net, fname, args, hooks, facts, init, par, unroll=10):
    I = net.interp(unroll, {**hooks, **par.hooks()})
    I.on_access = par
    if init: I.initmem.update(init)
    f = fn(net.mod, fname)
    if len(args) != len(f.args): raise Anchor("%s takes %d arguments" % (fname, len(f.args)))
    rv, st = I.run(f, args, Ctx(list(net.facts) + list(facts)))
    ch.functions.update(I.funcs_seen)
    if not par.regions: ch.ok(lab + ": no parallel region", "call graph", where(f))
    return f, I, rv, st
def omp_evaluate(ch, isa, L, M):
    import training as t
    lab = "evaluate with OpenMP/%d metrics/%d layers/%s" % (M, L, isa)
    N = isym("N")
    def go():
        net = Net(omodule(isa), L); par = Par()
        hooks = {"neuralnet_predict": predict_hook(net)}
        for j in range(M): hooks["metric#%d" % j] = t.metric_hook(j)
        f, I, rv, st = _run(ch, lab, net, "evaluate", [P_("nn"), N, P_("X"), P_("Y"), P_("metrics"), P_("results")], hooks, [psub(N, ONE)], {sym("metrics"): t.metrics_list(M)}, par)
        asgs = [a for a in batch_asgs(L) if a["N"] > 0]
        mem_is(ch, lab + ": results", st, sym("results"), lambda o, a: [sum(t.metric_ref(o, a, L, j, i) for i in range(a["N"])) / a["N"] for j in range(M)], asgs, where(f), "evaluation")
        par.decide(ch, lab, asgs)
    guard(ch, lab, "evaluate", go)
def omp_batch(ch, isa, L):
    lab = "neuralnet_predict_batch with OpenMP/%d layers/%s" % (L, isa)
    N = isym("N")
    def go():
        net = Net(omodule(isa), L); par = Par()
        f, I, rv, st = _run(ch, lab, net, "neuralnet_predict_batch", [P_("nn"), N, P_("X"), P_("out")], {"neuralnet_predict": predict_hook(net)}, [N], None, par)
        mem_is(ch, lab + ": output rows", st, sym("out"), lambda o, a: [v for i in range(a["N"]) for v in pred_ref(o, a, L, i)], batch_asgs(L), where(f), "batch prediction")
        par.decide(ch, lab, batch_asgs(L))
    guard(ch, lab, "neuralnet_predict_batch", go)
def omp_gradient(ch, isa, L):
    import training as t
    lab = "optimizer_calc_batch_gradient with OpenMP/%d layers/%s" % (L, isa)
    def go():
        net = Net(omodule(isa), L); par = Par()
        y = t.layout2(net.mod)
        N, bs, pos = isym("N"), isym("bs"), isym("pos")
        o = struct_([(y["o.nn"], "ptr", P_("nn")), (y["o.batchsize"], "i32", bs), (y["o.pivot"], "ptr", P_("pivot")), (y["o.metrics"], "ptr", P_("metrics"))], sym("opt"))
        init = {sym("opt"): o, sym("ip"): mk("mstore", mk("minit", sym("ip")), ZERO, "i32", pos)}
        hooks = with_arity({"neuralnet_backpropagation": t.bp_hook(net), **VKERNELS}, net.mod)
        f, I, rv, st = _run(ch, lab, net, "optimizer_calc_batch_gradient", [P_("opt"), N, P_("X"), P_("Y"), P_("ip"), P_("bg")], hooks, [psub(bs, ONE), pos, psub(psub(N, pos), ONE)], init, par)
        asgs, ref, PO = t.batch_grad_spec(L)
        mem_is(ch, lab + ": mean gradient", st, sym("bg"), ref, asgs, where(f), "batch gradient", mko=PO)
        par.decide(ch, lab, asgs)
    guard(ch, lab, "optimizer_calc_batch_gradient", go)
def struct_(*a):
    import training as t
    return t.struct(*a)
def omp_opt(ch, isa, name):
    """the optimizers' own parallel sections"""
    import training as t
    lab = "%s with OpenMP/%s" % (name, isa)
    def go():
        mod = omodule(isa); par = Par()
        t.opt_rule(ch, isa, name, 0, 0, 0, mod=mod, par=par, tag=" with OpenMP")        # values: sections followed one by one
        if par.regions:
            par = Par(unroll=0)                                                          # accesses: the section index kept symbolic
            t.run_opt(ch, mod, name, 0, 0, 0, par=par)
        par.decide(ch, lab, [{"n": n} for n in t.NLEN])
        if not par.regions: ch.ok(lab + ": no parallel region", "call graph")
    guard(ch, lab, name, go)
OMODS = [lambda isa=isa: omodule(isa) for isa in ("avx512", "sse")]
def omp_jobs(which):
    out = []
    for isa in ("avx512", "sse"):
        for L in (1, 2):
            if "evaluate" in which: out += [(omp_evaluate, isa, L, M) for M in (1, 2)]
            if "batch" in which: out.append((omp_batch, isa, L))
            if "gradient" in which: out.append((omp_gradient, isa, L))
        out += [(omp_opt, isa, n) for n in ("SGD", "RMSprop", "adagrad", "adam") if n in which]
    return out
