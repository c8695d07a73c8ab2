"""K07, N07, F07, R02: alignment, bounds, format strings, purity and races over the whole library"""
from training import *
from network import _ptrs
from omp import Par, omp_jobs, OMODS, omodule
import effects
from effects import CallGraph, mutable, globs, insts, dominators, slice_sources, ALLOCS
from kernels import ACTS, METRICS, LOSSES, VEC, lemma_vec, lemma_forward, lemma_backward, lemma_outer, lemma_act, lemma_deriv, lemma_metric, lemma_loss, resolve_deriv

def pick(ch, sub, job, *args):
    """run another check's job and keep only the obligations this property is about"""
    c = Check(ch.pid)
    job(c, *args)
    subs = sub if isinstance(sub, tuple) else (sub,)
    keep = lambda n: any(s in n for s in subs)
    ch.obl += [o for o in c.obl if keep(o["name"])]
    ch.viol += [v for v in c.viol if keep(v["obligation"])]
    ch.functions |= c.functions
    if not c.obl: return
    for o in c.obl:
        if o["status"] == "undecided" and not keep(o["name"]): ch.obl.append(o)
class Multi:
    def __init__(self, *cs): self.cs = cs
    def __call__(self, a):
        for c in self.cs: c(a)

# ------------------------------------------------------------------ the network-level entry points on a model network
def entry_points(net, M=2):
    """name -> (function, args, hooks, facts, init, extents, assignments, objects that may be written)"""
    mod, L = net.mod, net.L
    y = layout2(mod)
    N, bs, pos = isym("N"), isym("bs"), isym("pos")
    d0, dL = net.d[0], net.d[L]
    rows = {sym("X"): pscale(pmul(N, d0), 4), sym("Y"): pscale(pmul(N, dL), 4)}
    mets = {sym("metrics"): C(8 * (M + 1)), sym("results"): C(4 * M)}
    mh = {"metric#%d" % j: metric_hook(j) for j in range(M)}
    opt = struct([(y["o.nn"], "ptr", P_("nn")), (y["o.batchsize"], "i32", bs), (y["o.pivot"], "ptr", P_("pivot")), (y["o.metrics"], "ptr", P_("metrics"))], sym("opt"))
    ba = batch_asgs(L)
    b1 = [a for a in ba if a["N"] > 0]
    return {
        "neuralnet_predict": ([P_("nn"), P_("in"), P_("out")], KERNELS, [], {}, {}, widths(L), {"out"}),
        "neuralnet_predict_batch": ([P_("nn"), N, P_("X"), P_("out")], {"neuralnet_predict": predict_hook(net)}, [N], {}, {**rows, sym("out"): pscale(pmul(N, dL), 4)}, ba, {"out"}),
        "evaluate": ([P_("nn"), N, P_("X"), P_("Y"), P_("metrics"), P_("results")], {"neuralnet_predict": predict_hook(net), **mh}, [psub(N, ONE)], {sym("metrics"): metrics_list(M)}, {**rows, **mets}, b1, {"results"}),
        "neuralnet_backpropagation": ([P_("nn"), P_("in"), P_("target"), P_("grad")], BLK, [], {}, {}, widths(L), {"grad"}),
        "neuralnet_get_parameters": ([P_("nn"), P_("params")], {}, [], {}, {sym("params"): pscale(net.nparam(), 4)}, widths(L), {"params"}),
        "neuralnet_update": ([P_("nn"), P_("delta")], VKERNELS, [], {}, {sym("delta"): pscale(net.nparam(), 4)}, widths(L), {"W%d" % i for i in range(L)} | {"B%d" % i for i in range(L)}),
        "optimizer_calc_batch_gradient": ([P_("opt"), N, P_("X"), P_("Y"), P_("ip"), P_("bg")], {"neuralnet_backpropagation": bp_hook(net), **VKERNELS}, [psub(bs, ONE), pos, psub(psub(N, pos), ONE)],
            {sym("opt"): opt, sym("ip"): mk("mstore", mk("minit", sym("ip")), ZERO, "i32", pos)},
            {**rows, sym("ip"): C(4), sym("bg"): pscale(net.nparam(), 4), sym("pivot"): pscale(N, 4), sym("opt"): C(y["o.size"])}, batch_grad_spec(L)[0], {"bg", "ip"}),
    }

def pivot_rows(a):
    """the entries of the sample order are sample numbers (T04 decides that)"""
    out = []
    for x in {y for t in (a.off, a.size) for s in subterms(t) if isinstance(s, T) and s.op == "ld" and s.a[0] is sym("pivot") for y in (s,)}:
        out += [A(x), psub(psub(isym("N"), ONE), A(x))]
    return out

# ------------------------------------------------------------------ N07
def n07_entry(ch, isa, L, name, M=2):
    lab = "%s/%d layers/%s%s" % (name, L, isa, "/%d metrics" % M if M != 2 else "")
    def go():
        net = Net(tmodule(isa), L)
        args, hooks, facts, init, ext, asgs, _ = entry_points(net, M)[name]
        b = []
        def obs(I):
            b[:] = [Bounds(ch, lab, {**net.ext, **ext}, I, assume=pivot_rows)]
            return b[0]
        run_net(ch, net, name, args, hooks=hooks, facts=facts, init=init, observe=obs, name=lab, unroll=max(10, M + 3))
        b[0].decide(asgs)
    guard(ch, lab, name, go)
class OmpBounds(Par):
    """a parallel region's accesses for the bounds obligation"""
    def __init__(self, b): Par.__init__(self); self.b = b
    def __call__(self, a): self.b(a)
def n07_omp(ch, isa, L, name):
    lab = "%s with OpenMP/%d layers/%s" % (name, L, isa)
    def go():
        net = Net(omodule(isa), L)
        args, hooks, facts, init, ext, asgs, _ = entry_points(net)[name]
        par = OmpBounds(None)
        I = net.interp(10, {**with_arity(hooks, net.mod), **par.hooks()})
        par.b = Bounds(ch, lab, {**net.ext, **ext}, I, assume=pivot_rows)
        I.on_access = par
        I.initmem.update(init)
        f = fn(net.mod, name)
        if len(args) != len(f.args): raise Anchor("%s takes %d arguments" % (name, len(f.args)))
        I.run(f, args, Ctx(list(net.facts) + list(facts)))
        ch.functions.update(I.funcs_seen)
        par.b.decide(asgs)
    guard(ch, lab, name, go)
def n07_opt(ch, isa, name, nest, mom0, dec0, openmp=False):
    lab = "%s%s/momentum %s/decay %s/%s%s" % (name, "/nesterov" if nest else "", "0" if mom0 else ">0", "0" if dec0 else ">0", isa, " with OpenMP" if openmp else "")
    def go():
        mod = omodule(isa) if openmp else tmodule(isa)
        ext = {sym("X"): None}
        b = Bounds(ch, lab, {sym("theta"): pscale(N_, 4)}, None)
        par = OmpBounds(b) if openmp else None
        class Obs:
            def __call__(self, a): b(a)
            def hooks(self): return par.hooks() if par else {}
        I, o, st = run_opt(ch, mod, name, nest, mom0, dec0, par=Obs(), bs=2, ns=(3, 2))
        b.I = I
        b.decide([{"n": n} for n in NLEN])
    guard(ch, lab, name, go)
def N07():
    ch = Check("N07"); ch.floor = 20
    ch.rule = ("every load, store, memory copy and kernel operand of prediction, batch prediction, evaluation, backpropagation, parameter export and update, batch gradients and the four optimizers' "
               "epoch loops is collected with the conditions under which it executes, for networks of any width, and must lie inside its object for all of them (linear entailment; "
               "where that fails a concrete size is searched for); the kernels' own accesses are decided here too; OpenMP builds through their outlined functions")
    names = list(entry_points(Net(tmodule("avx512"), 1)))
    jobs = [(n07_entry, isa, L, n) for isa in ISAS for n in names for L in ((1, 2, 3, 4) if isa in ("avx512", "sse") else (1, 3))]
    jobs += [(n07_entry, isa, 1, "evaluate", M) for isa in ("avx512", "sse") for M in (1, 40)]
    jobs += [(n07_omp, isa, L, n) for isa in ("avx512", "sse") for n in ("neuralnet_predict_batch", "evaluate", "optimizer_calc_batch_gradient") for L in (1, 2)]
    for nm in OPTS:
        for isa in ("avx512", "sse"):
            for nest, mom0, dec0 in ((0, 1, 1), (0, 0, 0), (1, 0, 0)):
                if (nest or not mom0) and nm not in NEST and (nest or nm == "adagrad" and False): continue
                jobs.append((n07_opt, isa, nm, nest, mom0, dec0))
        jobs.append((n07_opt, "avx512", nm, 0, 1, 0, True))
    jobs += [(pick, "stays inside", j, isa) for isa in ISAS for j in (lemma_forward, lemma_backward, lemma_outer)]
    jobs += [(pick, "stays inside", lemma_vec, isa, v) for isa in ISAS for v in VEC]
    jobs += [(pick, "stays inside", j, isa, a) for isa in ISAS for a in ACTS for j in (lemma_act, lemma_deriv)]
    jobs += [(pick, "stays inside", lemma_metric, "avx512", a) for a in METRICS] + [(pick, "stays inside", lemma_loss, "avx512", a) for a in LOSSES]
    parallel(ch, jobs, TMODS + KM + OMODS)
    return ch.finish()

# ------------------------------------------------------------------ R02
NONREENTRANT = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48", "srand48", "strtok", "localtime", "gmtime", "ctime", "asctime", "strerror", "setlocale",
                "tmpnam", "readdir", "getpwnam", "setenv", "putenv", "signal", "basename", "dirname", "ecvt", "lgamma", "lgammaf"}
ENTRY = ("neuralnet_predict", "neuralnet_predict_batch", "evaluate", "neuralnet_backpropagation")
def derived_args(f):
    """pointer value -> indices of the parameters it may be derived from"""
    d = {}
    for k, a in enumerate(f.args): d[a] = {k}
    vs = effects._V
    for _ in range(6):
        ch = False
        for i in insts(f):
            src = ()
            if i.op == "getelementptr": src = i.ops[:1]
            elif i.op in effects.CASTS: src = i.ops
            elif i.op == "select": src = i.ops[1:]
            elif i.op == "phi": src = [a for a, _ in i.inc]
            if not src: continue
            v = vs.get(i.id); s = set()
            for o in src: s |= d.get(o, set())
            if s - d.get(v, set()): d[v] = d.get(v, set()) | s; ch = True
        if not ch: break
    return d
class Writes:
    """which parameters a function writes through (None: it may, through an unknown call)"""
    KNOWN = {"memcpy": {0}, "memmove": {0}, "memset": {0}, "strcpy": {0}, "strncpy": {0}, "strcat": {0}, "sprintf": {0}, "snprintf": {0}, "fread": {0}, "strlen": set(), "strcmp": set(), "strncmp": set(),
             "printf": set(), "fprintf": set(), "puts": set(), "free": set(), "fputs": set(), "fwrite": set(), "strchr": set(), "memcmp": set(), "perror": set(), "__assert_fail": set()}
    def __init__(self, mod): self.mod, self.memo = mod, {}
    def of(self, n):
        if n in self.memo: return self.memo[n]
        self.memo[n] = (set(), set())
        f = self.mod.funcs.get(n)
        if f is None or f.decl:
            for k, v in self.KNOWN.items():
                if n == k or n.startswith("llvm." + k): self.memo[n] = (v, set()); return self.memo[n]
            self.memo[n] = (set(), None) if not n.startswith("llvm.") else (set(), set())
            return self.memo[n]
        d = derived_args(f); w, maybe = set(), set()
        for i in insts(f):
            if i.op == "store": w |= d.get(i.ops[1], set())
            elif i.op == "call":
                if i.callee.kind != "func":
                    for a in i.args:
                        if a.kind != "meta": maybe |= d.get(a, set())
                    continue
                cw, cm = self.of(i.callee.name)
                for k, a in enumerate(i.args):
                    if a.kind == "meta" or a not in d: continue
                    if k in cw: w |= d[a]
                    elif cm is None or k in cm: maybe |= d[a]
        self.memo[n] = (w, maybe)
        return self.memo[n]
def r02_globals(ch, isa, openmp=False):
    mod = omodule(isa) if openmp else tmodule(isa)
    lab = "no state between calls/%s%s" % (isa, " with OpenMP" if openmp else "")
    roots = [n for n in ENTRY]
    for n in roots: fn(mod, n)
    for a in ACTS: roots += [resolve_fn(mod, "get_activation_func", a).name, resolve_deriv(mod, a).name]
    for a in LOSSES: roots.append(resolve_fn(mod, "get_loss_func", a).name)
    for a in METRICS: roots.append(resolve_fn(mod, "get_metric_func", a).name)
    cg = CallGraph(mod)
    reach = cg.reach(roots)
    ch.functions |= {n for n in reach if n in mod.funcs and not mod.funcs[n].decl}
    muts, use = mutable(mod)
    wr = Writes(mod)
    n = 0
    for g in muts:
        if g.startswith(".gomp"): continue
        gl = mod.globals[g]
        if gl.tls:
            if any(f.name in reach for f, *_ in use.escapes.get(g, []) + use.stores.get(g, [])): ch.undecided("%s: %s" % (lab, g), "thread-local state")
            continue
        st = [(f, i) for f, i, _ in use.stores.get(g, []) if f.name in reach]
        for f, i in use.escapes.get(g, []):
            if f.name in reach and i.op != "call": ch.undecided("%s: %s" % (lab, g), "its address is kept at line %s" % i.line, where(f, i))
        for f, i, k in use.passed.get(g, []):
            if f.name not in reach: continue
            nm = i.callee.name if i.callee.kind == "func" else None
            cw, cm = wr.of(nm) if nm else (set(), None)
            if k is not None and k in cw: st.append((f, i))
            elif k is None or cm is None or k in cm: ch.undecided("%s: %s" % (lab, g), "its address is passed to %s" % (nm or "an unknown function"), where(f, i))
        n += 1
        if not st: ch.ok("%s: %s" % (lab, g), "not written by anything prediction or backpropagation can reach", None); continue
        f, i = st[0]
        vals = [v for f2, i2, v in use.stores.get(g, []) if f2.name in reach]
        if gl.ty.k in ("int", "float", "double", "ptr") and len(vals) == len(st) and all(v is not None and slice_sources(v) <= {"const"} for v in vals) and len({str(v.v) + str(v.name) for v in vals if v.kind != "inst"}) <= 1:
            ch.undecided("%s: %s" % (lab, g), "only ever set to one constant", where(f, i)); continue
        ch.violate("%s: %s" % (lab, g), where(f, i), "the static '%s' is written here, in code reachable from %s: calls are not independent and concurrent calls race on it" % (g, "/".join(r for r in ENTRY if f.name in cg.reach([r])) or "the activation, loss and metric functions"))
    for r in sorted(reach):
        if r in NONREENTRANT:
            by = [f for f in sorted(reach) if f in mod.funcs and not mod.funcs[f].decl and r in cg.calls.get(f, ())]
            f = mod.funcs[by[0]] if by else fn(mod, ENTRY[0])
            i = next((i for i in insts(f) if i.op == "call" and i.callee.kind == "func" and i.callee.name == r), None)
            ch.violate("%s: reentrant library calls" % lab, where(f, i), "%s keeps hidden state shared by all threads" % r)
    ch.ok("%s: %d functions reached, %d mutable globals examined" % (lab, len(reach), n), "call graph and store effects")
class Pure:
    """writes to objects the function was given for reading"""
    def __init__(self, allowed): self.allowed, self.bad, self.n = allowed, {}, 0
    def __call__(self, a):
        if a.kind not in ("store", "write"): return
        self.n += 1
        b = a.base
        if b in self.allowed or b.op in ("alloca", "obj", "null", "func"): return
        self.bad.setdefault((b, a.inst), a)
    def decide(self, ch, lab, f):
        nm = lab + ": network and data are only read"
        for (b, inst), a in self.bad.items():
            if not possible(a): ch.undecided(nm, "a write to %s under conditions that were not met by any sampled size" % show(b, 3), "%s:%s (%s)" % (rel(inst.file), inst.line, a.fn)); continue
            ch.violate(nm, "%s:%s (%s)" % (rel(inst.file), inst.line, a.fn), "%s %s" % ({"nn": "the network", "layers": "the layers of the network", "X": "the input data", "in": "the input", "Y": "the target data", "target": "the target"}.get(str(b.a[0]), str(b.a[0]) if b.op != "global" else "the static " + str(b.a[0])), "is written here"))
        if not self.bad: ch.ok(nm, "none of its %d writes reaches them" % self.n, where(f))
def possible(a, tries=200):
    """some sizes satisfy the conditions of the access"""
    rng = random.Random(5)
    at = int_atoms(a.off) | int_atoms(a.size)
    for f in a.ctx.facts: at |= int_atoms(f)
    for b in a.ctx.bools: at |= {x for s in subterms(b) if isinstance(s, P) for mo, _ in s.m for x in mo if x.op in ("sym", "lv")}
    for k in range(tries):
        top = rng.choice((2, 5, 17, 40))
        ev = Ev(Oracle((k, "p")), {x: rng.randint(0, top) for x in sorted(at)})
        try:
            if all(ev.ev(f) >= 0 for f in a.ctx.facts) and all(ev.ev(b) for b in a.ctx.bools) and ev.ev(a.size) > 0: return True
        except (Unknown, OutOfSpec): return True
    return False
def r02_pure(ch, isa, L, name, contracts=True):
    lab = "%s/%d layers/%s%s" % (name, L, isa, "" if contracts else "/kernels expanded")
    def go():
        net = Net(tmodule(isa), L)
        args, hooks, facts, init, ext, asgs, okw = entry_points(net)[name]
        if not contracts: hooks = {k: h for k, h in hooks.items() if k not in BLK}
        p = []
        def obs(I):
            p[:] = [Pure({sym(x) for x in okw})]
            return p[0]
        f, I, rv, st = run_net(ch, net, name, args, hooks=hooks, facts=facts, init=init, observe=obs, name=lab)
        p[0].decide(ch, lab, f)
        preserved(ch, lab + ": only the output is written", I, st, {sym(x) for x in okw}, where(f))
    guard(ch, lab, name, go)
def R02():
    ch = Check("R02"); ch.floor = 20
    ch.rule = ("effect analysis: every function reachable from prediction, batch prediction, evaluation and backpropagation (with all built-in activations, derivatives, losses and metrics) is searched for "
               "writes to statics and for library calls with hidden state; the write sets of the four entry points and of every kernel, activation, loss and metric are computed for networks of any width and must be "
               "confined to the output; the accesses of different iterations of every OpenMP loop are compared for conflicts")
    jobs = [(r02_globals, isa) for isa in ISAS] + [(r02_globals, isa, True) for isa in ("avx512", "sse")]
    jobs += [(r02_pure, isa, L, n) for isa in ISAS for n in ENTRY for L in ((1, 2, 3) if isa in ("avx512", "sse") else (2,))]
    jobs += [(r02_pure, isa, 2, n, False) for isa in ISAS for n in ("neuralnet_predict",)]
    jobs += [(pick, "only the result", j, isa) for isa in ISAS for j in (lemma_forward, lemma_backward, lemma_outer)]
    jobs += [(pick, "only the result", lemma_vec, isa, v) for isa in ISAS for v in VEC]
    jobs += [(pick, "only the result", j, isa, a) for isa in ISAS for a in ACTS for j in (lemma_act, lemma_deriv)]
    jobs += [(pick, "only the result", lemma_metric, "avx512", a) for a in METRICS] + [(pick, "only the result", lemma_loss, "avx512", a) for a in LOSSES]
    jobs += [(pick, ("do not conflict", "no parallel region"), j[0]) + tuple(j[1:]) for j in omp_jobs(["evaluate", "batch", "gradient", "SGD", "RMSprop", "adagrad", "adam"])]
    parallel(ch, jobs, TMODS + KM + OMODS)
    return ch.finish()

# ------------------------------------------------------------------ F07
FORMATS = {"printf": 0, "fprintf": 1, "dprintf": 1, "sprintf": 1, "snprintf": 2, "asprintf": 1, "vprintf": 0, "vfprintf": 1, "vdprintf": 1, "vsprintf": 1, "vsnprintf": 2, "vasprintf": 1,
           "syslog": 1, "vsyslog": 1, "err": 1, "errx": 1, "warn": 0, "warnx": 0, "error": 2, "scanf": 0, "fscanf": 1, "sscanf": 1, "__printf_chk": 1, "__fprintf_chk": 2, "__sprintf_chk": 3, "__snprintf_chk": 4}
VFORM = {n for n in FORMATS if n.startswith("v")}
COPIES = {"strcpy": 1, "strncpy": 1, "strcat": 1, "strncat": 1, "memcpy": 1, "memmove": 1, "stpcpy": 1, "strdup": 0, "strndup": 0, "fread": None, "zip_fread": None, "fgets": None, "read": None, "getline": None}
class Fmt:
    """where the text of a format argument comes from"""
    def __init__(self, mod):
        self.mod = mod
        self.cg = CallGraph(mod); effects.index(mod)
        self.headers = ""
        for d in ("src", "npy_array"):
            p = os.path.join(REPO, d)
            for h in sorted(os.listdir(p)) if os.path.isdir(p) else ():
                if h.endswith(".h"): self.headers += open(os.path.join(p, h), errors="replace").read()
        self.callers = {}
        for f in mod.funcs.values():
            if f.decl: continue
            for i in insts(f):
                if i.op == "call" and i.callee.kind == "func": self.callers.setdefault(i.callee.name, []).append((f, i))
    def public(self, name):
        import re
        return bool(re.search(r"\b%s\s*\(" % re.escape(name), self.headers))
    def documented(self, f, k): return f.vararg and k == len(f.args) - 1
    def origins(self, f, v, seen=None):
        """set of ('const',), ('param', f, k), ('text', why, where), ('?', why)"""
        seen = set() if seen is None else seen
        if (f.name, v) in seen: return set()
        seen.add((f.name, v))
        if v.kind in ("global", "cexpr", "str"):
            gs = globs(v)
            if all(self.mod.globals[g].const or g.startswith(".str") for g in gs if g in self.mod.globals): return {("const",)}
            return {("text", "the contents of the static %s" % ", ".join(gs), None)}
        if v.kind in ("null", "undef"): return {("const",)}
        if v.kind == "arg": return {("param", f.name, f.args.index(v))}
        if v.kind != "inst": return {("?", v.kind)}
        i = v.inst
        if i.op == "phi":
            out = set()
            for a, _ in i.inc: out |= self.origins(f, a, seen)
            return out
        if i.op == "select": return self.origins(f, i.ops[1], seen) | self.origins(f, i.ops[2], seen)
        if i.op in ("getelementptr",) + effects.CASTS: return self.origins(f, i.ops[0], seen)
        if i.op == "alloca": return self.buffer(f, v, seen)
        if i.op == "load":
            gs = globs(i.ops[0])
            if gs and all(self.mod.globals[g].const for g in gs if g in self.mod.globals): return {("const",)}
            b = i.ops[0]
            while b.kind == "inst" and b.inst.op in ("getelementptr",) + effects.CASTS: b = b.inst.ops[0]
            if b.kind == "inst" and b.inst.op == "alloca":
                out = set()
                for j in insts(f):
                    if j.op == "store" and self.based(j.ops[1], b): out |= self.origins(f, j.ops[0], seen)
                return out or {("?", "a local variable")}
            if b.kind == "global" or gs:
                g = sorted(gs)[0]
                init = self.mod.globals[g].init if g in self.mod.globals else None
                return {("text", "the value kept in the static %s" % g, where(f, i))}
            return {("text", "a string field of an object", where(f, i))}
        if i.op == "call":
            nm = i.callee.name if i.callee.kind == "func" else None
            if nm in COPIES and COPIES[nm] is not None: return self.origins(f, i.args[COPIES[nm]], seen)
            if nm in ("getenv", "strerror", "dlerror", "zip_strerror", "zip_get_name", "zip_error_strerror"): return {("text", "what %s returns" % nm, where(f, i))}
            if nm in ("strchr", "strrchr", "strstr", "strpbrk", "basename"): return self.origins(f, i.args[0], seen)
            if nm in ALLOCS: return self.buffer(f, v, seen)
            g = self.mod.funcs.get(nm) if nm else None
            if g is not None and not g.decl:
                out = set()
                for j in insts(g):
                    if j.op == "ret" and j.ops:
                        for o in self.origins(g, j.ops[0], seen):
                            if o[0] == "param" and o[1] == g.name: out |= self.origins(f, i.args[o[2]], seen)
                            else: out.add(o)
                return out
            return {("?", "the result of %s" % (nm or "an indirect call"))}
        return {("?", i.op)}
    def based(self, p, b):
        while p.kind == "inst" and p.inst.op in ("getelementptr",) + effects.CASTS: p = p.inst.ops[0]
        return p is b
    def buffer(self, f, b, seen):
        """texts written into a local or allocated buffer"""
        out = {("const",)}
        for j in insts(f):
            if j.op != "call" or j.callee.kind != "func": continue
            nm = j.callee.name
            base = "memcpy" if nm.startswith("llvm.memcpy") else "memmove" if nm.startswith("llvm.memmove") else nm
            if nm.startswith("llvm.") and base == nm: continue
            into = [k for k, a in enumerate(j.args) if a.kind != "meta" and self.based(a, b)]
            if not into: continue
            if base in COPIES:
                if COPIES[base] is None: out.add(("text", "bytes read by %s" % base, where(f, j)))
                elif 0 in into: out |= self.origins(f, j.args[COPIES[base]], seen)
            elif base in ("sprintf", "snprintf"):
                if 0 not in into: continue
                k = FORMATS[base]
                out |= self.origins(f, j.args[k], seen)
                for a in j.args[k + 1:]:
                    if a.ty is None or a.ty.k == "ptr": out |= self.origins(f, a, seen)
            elif base in VFORM: out.add(("text", "caller-supplied text formatted by %s" % base, where(f, j)) if 0 in into else ("const",))
            elif base in self.mod.funcs and not self.mod.funcs[base].decl and base not in FORMATS: out.add(("?", "filled by %s" % base))
        return out
def conversions(s):
    """argument classes a constant printf format consumes; None: not understood"""
    import re
    out, i = [], 0
    while True:
        i = s.find("%", i)
        if i < 0: return out
        m = re.match(r"%([-+ #0']*)(\*|\d+)?(?:\.(\*|\d*))?(hh|h|ll|l|z|t|j|L|q)?([a-zA-Z%])", s[i:])
        if not m: return None
        i += m.end()
        if m.group(2) == "*": out.append("i32")
        if m.group(3) == "*": out.append("i32")
        c, l = m.group(5), m.group(4) or ""
        if c == "%": continue
        if c in "di uoxXc".replace(" ", ""): out.append("i64" if l in ("ll", "l", "z", "t", "j", "q") and c != "c" else "i32")
        elif c in "fFeEgGaA": out.append("double")
        elif c == "s" or c == "p" or c == "n": out.append("ptr:" + c)
        elif c == "m": pass
        else: return None
def f07_run(ch, isa):
    mod = tmodule(isa)
    F7 = Fmt(mod)
    todo, done = [], set()
    for f in mod.funcs.values():
        if f.decl or f.name.startswith("verif_"): continue
        ch.functions.add(f.name)
        for i in insts(f):
            if i.op != "call": continue
            if i.callee.kind == "func":
                if i.callee.name in FORMATS: todo.append((f, i, FORMATS[i.callee.name], i.callee.name))
                g = mod.funcs.get(i.callee.name)
                if g is not None and not g.decl and g.vararg and len(g.args) and g.args[-1].ty.k == "ptr": todo.append((f, i, len(g.args) - 1, g.name))
            elif i.fty and i.callee.kind == "inst" and i.args[i.fty - 1].ty is not None and i.args[i.fty - 1].ty.k == "ptr" or i.fty and i.callee.kind != "asm" and i.args[i.fty - 1].kind in ("global", "cexpr"):
                todo.append((f, i, i.fty - 1, "a function pointer"))
    need = {}
    while todo:
        f, i, k, callee = todo.pop()
        if (i.id, k) in done or k >= len(i.args): continue
        done.add((i.id, k))
        lab = "format of %s in %s" % (callee, f.name)
        w = where(f, i)
        oks = True
        for o in F7.origins(f, i.args[k]):
            if o[0] == "const": continue
            if o[0] == "text":
                oks = False
                ch.violate(lab, w, "%s is used as a printf format: a '%%' in it is interpreted%s" % (o[1], " (text from %s)" % o[2] if o[2] else "")); continue
            if o[0] == "?": oks = False; ch.undecided(lab, o[1], w); continue
            g = mod.funcs[o[1]]
            if F7.documented(g, o[2]): continue
            if F7.public(g.name) and g.name not in FORMATS:
                pn = g.args[o[2]].name
                oks = False
                ch.violate(lab, w, "parameter '%s' of %s is used as a printf format although it is a plain text argument" % (pn, g.name)); continue
            cs = F7.callers.get(g.name, [])
            if not cs:
                if g.name in {n for r in F7.cg.refs.values() for n in r}: oks = False; ch.undecided(lab, "the callers of %s are not known" % g.name, w)
                continue
            for cf, ci in cs: todo.append((cf, ci, o[2], g.name))
        if oks: ch.ok(lab, "constant text or a printf-style parameter (dataflow)", w)
        # number and kinds of the arguments
        if callee in FORMATS and callee not in VFORM and "scanf" not in callee and i.args[k].kind in ("global", "cexpr"):
            gs = sorted(globs(i.args[k]))
            s = mod.gstring(gs[0]) if len(gs) == 1 else None
            s = s.decode("latin1") if isinstance(s, bytes) else s
            cv = conversions(s) if s is not None else None
            if cv is None: continue
            got = ["ptr" if a.ty is None else a.ty.k if a.ty.k != "int" else "i%d" % a.ty.bits for a in i.args[k + 1:]]
            bad = None
            if len(got) < len(cv): bad = "the format takes %d arguments, %d are given" % (len(cv), len(got))
            else:
                for x, y in zip(cv, got):
                    if x.startswith("ptr") != (y == "ptr"): bad = "a conversion for %s gets %s" % ("text or a pointer" if x.startswith("ptr") else "a number", "a pointer" if y == "ptr" else "a number"); break
                    if x == "double" and y != "double" or y == "double" and x != "double": bad = "a conversion for %s gets %s" % (x, y); break
                    if x == "ptr:n": bad = "%n writes to memory"; break
            if bad: ch.violate("arguments of %s in %s" % (callee, f.name), w, "\"%s\": %s" % (s.replace("\n", "\\n"), bad))
            else: ch.ok("arguments of %s in %s" % (callee, f.name), "conversions match the argument types", w)
def F07():
    ch = Check("F07"); ch.floor = 20
    ch.rule = ("interprocedural dataflow from every format parameter of the printf family back to where its text comes from: string constants, or the last named parameter of a variadic library function (a printf-style parameter); "
               "struct fields, file and archive contents, environment and library messages, and plain text parameters of public functions must not reach one; the number and kind of arguments is compared with constant formats")
    parallel(ch, [(f07_run, "avx512")], [lambda: tmodule("avx512")])
    return ch.finish()
