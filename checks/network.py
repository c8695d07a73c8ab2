"""K07, N01-N07: prediction, backpropagation and the parameter layout over the whole network, for every layer width"""
from common import *
from kernels import F, el, ldf, guard
import tempfile, itertools

# ------------------------------------------------------------------ struct layout, asked from the compiler
_PROBE = """
#include <stddef.h>
#include "neuralnet.h"
#include "optimizer.h"
const long verif_layout[] = { sizeof(neuralnet_t), offsetof(neuralnet_t, n_layers), offsetof(neuralnet_t, layer), offsetof(neuralnet_t, loss),
  sizeof(layer_t), offsetof(layer_t, n_input), offsetof(layer_t, n_output), offsetof(layer_t, weight), offsetof(layer_t, bias),
  offsetof(layer_t, activation_func), offsetof(layer_t, activation_derivative),
  sizeof(optimizer_t), offsetof(optimizer_t, run_epoch), offsetof(optimizer_t, free), offsetof(optimizer_t, nn), offsetof(optimizer_t, shuffle),
  offsetof(optimizer_t, batchsize), offsetof(optimizer_t, progress), offsetof(optimizer_t, metrics), offsetof(optimizer_t, pivot) };
const int verif_align = ALIGN_SIZE;
unsigned int verif_count( const neuralnet_t *nn ) { return neuralnet_total_n_parameters( nn ); }
int verif_n_metrics( const optimizer_t *o ) { return optimizer_get_n_metrics( o ); }
void verif_optimizer_free( optimizer_t *o ) { optimizer_free( o ); }
""".replace('#include "optimizer.h"', '#include "optimizer.h"\n#include "simd.h"')
NAMES = ("nn.size nn.n_layers nn.layer nn.loss l.size l.n_input l.n_output l.weight l.bias l.act l.deriv "
         "o.size o.run_epoch o.free o.nn o.shuffle o.batchsize o.progress o.metrics o.pivot").split()
_probe_src = None
def probe():
    global _probe_src
    if _probe_src is None:
        _probe_src = os.path.join(build.tmpdir(), "verif_probe.c")
        with open(_probe_src, "w") as f: f.write(_PROBE)
    return _probe_src
def nmodule(isa="avx512", **kw):
    return module(isa, extra_src=(probe(),), **kw)
_lay = {}
def layout(mod):
    if mod not in _lay:
        I = Interp(mod)
        ch = I.const_chain("verif_layout")
        if ch is None: raise Anchor("cannot determine the layout of neuralnet_t")
        d = {}
        for i, n in enumerate(NAMES):
            v = read(ch, C(8 * i), "i64", Ctx()).const()
            if v is None: raise Anchor("layout of " + n)
            d[n] = v
        al = I.const_chain("verif_align")
        d["align"] = read(al, ZERO, "i32", Ctx()).const() if al is not None else None
        if d["align"] is None:
            g = mod.globals.get("verif_align")
            d["align"] = {"avx512": 64, "avx2": 32, "avx": 32, "sse": 16}[mod.isa]
        _lay[mod] = d
    return _lay[mod]

# ------------------------------------------------------------------ model of a network of L layers of any width
class Net:
    def __init__(self, mod, L, loss=True):
        self.mod, self.L, self.lay = mod, L, layout(mod)
        self.d = [isym("d%d" % i) for i in range(L + 1)]
        self.facts = [psub(x, ONE) for x in self.d]
        y = self.lay
        nn = mk("minit", sym("nn")); ly = mk("minit", sym("layers"))
        def st(ch, off, tk, v): return mk("mstore", ch, C(off), tk, v)
        nn = st(nn, y["nn.n_layers"], "i32", C(L))
        nn = st(nn, y["nn.layer"], "ptr", mkptr(sym("layers")))
        nn = st(nn, y["nn.loss"], "ptr", mkptr(mk("func", "loss#")) if loss else NULL)
        for i in range(L):
            o = i * y["l.size"]
            ly = st(ly, o + y["l.n_input"], "i32", self.d[i])
            ly = st(ly, o + y["l.n_output"], "i32", self.d[i + 1])
            ly = st(ly, o + y["l.weight"], "ptr", mkptr(sym("W%d" % i)))
            ly = st(ly, o + y["l.bias"], "ptr", mkptr(sym("B%d" % i)))
            ly = st(ly, o + y["l.act"], "ptr", mkptr(mk("func", "act#%d" % i)))
            ly = st(ly, o + y["l.deriv"], "ptr", mkptr(mk("func", "dact#%d" % i)))
        self.init = {sym("nn"): nn, sym("layers"): ly}
        self.ext = {sym("nn"): C(y["nn.size"]), sym("layers"): C(L * y["l.size"]), sym("in"): pscale(self.d[0], 4), sym("out"): pscale(self.d[L], 4),
                    sym("target"): pscale(self.d[L], 4), sym("grad"): pscale(self.nparam(), 4)}
        for i in range(L):
            self.ext[sym("W%d" % i)] = pscale(pmul(self.d[i], self.d[i + 1]), 4)
            self.ext[sym("B%d" % i)] = pscale(self.d[i + 1], 4)
    def nparam(self, upto=None):
        r = ZERO
        for i in range(self.L if upto is None else upto): r = padd(r, pmul(padd(self.d[i], ONE), self.d[i + 1]))
        return r
    def interp(self, unroll=10, hooks=None):
        I = Interp(self.mod, hooks=hooks_net(self, hooks))
        I.initmem.update(self.init)
        I.unroll = unroll
        return I
    def fields_ok(self, asg): pass

def vec_hook(fname, extra=None):
    """an unknown function working in place on n floats: element k becomes f(x_k, extra_k, sum of x, k, n)"""
    def h(I, ev, st, ctx, key):
        n, p = ev.args[0], ev.args[-1]
        if not isinstance(p, Ptr): raise Unsupported("activation called on an undetermined array")
        I.access("write", p, pscale(n, 4), 4, ctx, ev.inst, st)
        prev = st.get(p.base)
        k, j = mk("lv", "k", key), mk("lv", "j", key)
        args = [rdm(prev, p.off, k)]
        if extra is not None:
            for e in extra(ev):
                if not isinstance(e, Ptr): raise Unsupported("activation reads an undetermined array")
                I.access("read", e, pscale(n, 4), 4, ctx, ev.inst, st)
                args.append(rdm(st.get(e.base), e.off, k))
        args.append(mk_fsum(j, rdm(prev, p.off, j), ZERO, n))
        args += [itof(A(k)), itof(n)]
        body = fcall(fname, *args)
        bvs, bd = close((k,), (body,))
        st.d[p.base] = mseg(bvs, bd, prev, p.off, n, 4, "f32")
        return None
    return h
def rdm(ch, off, k):
    return mk("ldm", ch, padd(off, pscale(A(k), 4)), "f32")
def loss_hook(I, ev, st, ctx, key):
    n, p, t, g = ev.args
    for kd, x in (("read", p), ("read", t), ("write", g)):
        if not isinstance(x, Ptr): raise Unsupported("loss called on an undetermined array")
        I.access(kd, x, pscale(n, 4), 4, ctx, ev.inst, st)
    k, j = mk("lv", "k", key), mk("lv", "j", key)
    body = fcall("loss#", rdm(st.get(p.base), p.off, k), rdm(st.get(t.base), t.off, k), mk_fsum(j, rdm(st.get(p.base), p.off, j), ZERO, n), itof(A(k)), itof(n))
    bvs, bd = close((k,), (body,))
    st.d[g.base] = mseg(bvs, bd, st.get(g.base), g.off, n, 4, "f32")
    return None
def hooks_net(net, more=None):
    h = {"loss#": loss_hook}
    for i in range(net.L):
        h["act#%d" % i] = vec_hook("act#%d" % i)
        h["dact#%d" % i] = vec_hook("dact#%d" % i, lambda ev: [ev.args[1]])
    if more: h.update(more)
    return h

# ------------------------------------------------------------------ reference (numbers), straight from the definition
class Ref:
    def __init__(self, o, asg, L, xoff=0, toff=0):
        self.o, self.L = o, L
        self.d = [asg["d%d" % i] for i in range(L + 1)]
        f = lambda b, k: o.load(("sym", b), 4 * k, "f32")
        d = self.d
        self.W = [[[f("W%d" % l, i * d[l + 1] + j) for j in range(d[l + 1])] for i in range(d[l])] for l in range(L)]
        self.B = [[f("B%d" % l, j) for j in range(d[l + 1])] for l in range(L)]
        self.x = [f("in", xoff + i) for i in range(d[0])]
        self.t = [f("target", toff + i) for i in range(d[L])]
    def fwd(self):
        a = [self.x]
        for l in range(self.L):
            z = [self.B[l][j] + sum(a[-1][i] * self.W[l][i][j] for i in range(self.d[l])) for j in range(self.d[l + 1])]
            s, n = sum(z), len(z)
            a.append([fcall_val("act#%d" % l, [v, s, float(k), float(n)]) for k, v in enumerate(z)])
        return a
    def grad(self):
        a = self.fwd(); L, d = self.L, self.d
        y = a[L]; s = sum(y)
        g = [fcall_val("loss#", [v, self.t[k], s, float(k), float(len(y))]) for k, v in enumerate(y)]
        out = [None] * L
        for l in range(L - 1, -1, -1):
            if l != L - 1: g = [sum(self.W[l + 1][i][j] * g[j] for j in range(d[l + 2])) for i in range(d[l + 1])]
            s = sum(g)
            g = [fcall_val("dact#%d" % l, [v, a[l + 1][k], s, float(k), float(len(g))]) for k, v in enumerate(g)]
            out[l] = g + [a[l][i] * g[j] for i in range(d[l]) for j in range(d[l + 1])]
        return [v for o in out for v in o]
from evalterm import fcall_val

def widths(L, rng=None):
    """width tuples: small, around the SIMD widths, mixed"""
    r = random.Random(repr((SEED, "widths", L)))
    base = {1: [(1, 1), (3, 2), (2, 17), (17, 8), (16, 16), (9, 33)],
            2: [(1, 1, 1), (3, 5, 2), (2, 16, 3), (5, 17, 9), (18, 8, 16), (7, 33, 1)],
            3: [(1, 1, 1, 1), (3, 5, 2, 4), (2, 17, 8, 3), (9, 4, 16, 17), (4, 8, 18, 1)],
            4: [(2, 3, 1, 4, 2), (1, 17, 2, 9, 3), (5, 2, 16, 3, 8)]}[L]
    k = 4 if TIER == "quick" else 16
    for _ in range(k): base.append(tuple(r.choice((1, 2, 3, 4, 5, 7, 8, 9, 11, 15, 16, 17, 19)) for _ in range(L + 1)))
    return [{"d%d" % i: v for i, v in enumerate(t)} for t in base]
def envs(asg): return {sym(k): v for k, v in asg.items()}

def mem_is(ch, name, st, base, ref, asgs, where, what, outside=18, tk="f32", key=None, mode="normal", mko=None):
    """object base holds ref(oracle, asg) from offset 0 and is unchanged outside"""
    chain = st.get(base)
    extra = critical([chain], sorted(asgs[0])) if asgs and all(k[0] == "d" for k in asgs[0]) else []
    for ai, asg in enumerate(list(asgs) + extra):
        o = (mko or Oracle)((SEED, name, ai), mode)
        want = ref(o, asg)
        e = Ev(o, envs(asg))
        for k in some(itertools.chain(range(-outside, 0), range(len(want)), range(len(want), len(want) + outside)), ai >= len(asgs)):
            inside = 0 <= k < len(want)
            try:
                got = e.mread(chain, 4 * k, tk, {})
                w = want[k] if inside else e.mread(mk("minit", base), 4 * k, tk, {})
            except Unknown as x:
                ch.undecided(name, "cannot evaluate the summary: %s" % x, where); return None
            except OutOfSpec as x:
                ch.violate(name, where, "%s (with %s)" % (x, asg), key=key); return False
            if not close_to(got, w, 1e-5, 1e-6):
                ch.violate(name, where, "%s: with widths %s element %d is %r by the summary of the code, %s %r" % (what, asg, k, got, "the specification gives" if inside else "it must stay", w), key=key)
                return False
    ch.ok(name, "summary agrees with the specification (identity testing)", where)
    return True

def preserved(ch, name, I, st, ok, where, asgs=()):
    """nothing but the given objects and the function's own locals is modified"""
    bad = []
    for b, c in st.d.items():
        if b in ok or b.op in ("alloca", "obj"): continue
        r = I.initmem.get(b, mk("minit", b))
        if c is r or writes(c, {r, mk("minit", b)}) == []: continue
        ws = writes(c, {r})
        if ws == []: continue
        bad.append(b)
    if bad: ch.violate(name, where, "also modifies %s" % ", ".join(show(b, 3) for b in bad))
    else: ch.ok(name, "store effects", where)

# ------------------------------------------------------------------ the matrix kernels by contract (K02 decides the contracts)
class Overlap(Unsupported):
    def __init__(self, msg, data): Unsupported.__init__(self, msg); self.data = data
def _disjoint(ctx, outp, on, inp, inn, what, ev=None):
    if outp.base is not inp.base: return
    if ctx.ge0(psub(inp.off, padd(outp.off, on))) or ctx.ge0(psub(outp.off, padd(inp.off, inn))): return
    raise Overlap("%s: result may overlap an operand (%s / %s in %s)" % (what, show(outp.off), show(inp.off), show(outp.base)), (ctx, outp, on, inp, inn, what))
def overlap_witness(d, asgs):
    """sizes at which a kernel's result shares bytes with an operand"""
    ctx, outp, on, inp, inn, what = d
    for ai, asg in enumerate(asgs):
        e = dict(envs(asg)); rng = random.Random(ai)
        for x in {y for t in (outp.off, on, inp.off, inn, *ctx.facts, *ctx.bools) for y in int_atoms(t if isinstance(t, P) else ZERO) if y.op in ("sym", "lv")}:
            if x not in e: e[x] = rng.randint(0, 3)
        v = Ev(Oracle((SEED, "ov", ai)), e)
        try:
            if not all(v.ev(f) >= 0 for f in ctx.facts) or not all(v.ev(t) for t in ctx.bools): continue
            a, na, b, nb = v.ev(outp.off), v.ev(on), v.ev(inp.off), v.ev(inn)
        except (Unknown, OutOfSpec): continue
        if na > 0 and nb > 0 and a < b + nb and b < a + na: return "with %s %s writes bytes %d..%d of the array it reads at %d..%d" % (asg, what, a, a + na - 1, b, b + nb - 1)
    return None
def _ptrs(name, *ps):
    for p in ps:
        if not isinstance(p, Ptr): raise Unsupported(name + " called on an undetermined array")
def at(p, off):
    return Ptr(p.base, padd(p.off, off)) if False else mkptr(p.base, padd(p.off, off))
def k_forward(I, ev, st, ctx, key):
    n, m, W, b, x, y = ev.args
    _ptrs("vector_matrix_multiply", W, b, x, y)
    nm4, n4, m4 = pscale(pmul(n, m), 4), pscale(n, 4), pscale(m, 4)
    for kd, p, z in (("read", W, nm4), ("read", b, m4), ("read", x, n4), ("write", y, m4)): I.access(kd, p, z, 4, ctx, ev.inst, st)
    for p, z in ((W, nm4), (b, m4), (x, n4)): _disjoint(ctx, y, m4, p, z, "vector_matrix_multiply")
    k, j = mk("lv", "k", key), mk("lv", "j", key)
    w = mk("ldm", st.get(W.base), padd(W.off, pscale(padd(pmul(A(j), m), A(k)), 4)), "f32")
    body = F("f+", rdm(st.get(b.base), b.off, k), mk_fsum(j, F("f*", rdm(st.get(x.base), x.off, j), w), ZERO, n))
    bvs, bd = close((k,), (body,))
    st.d[y.base] = mseg(bvs, bd, st.get(y.base), y.off, m, 4, "f32")
def k_backward(I, ev, st, ctx, key):
    n, m, W, v, y = ev.args
    _ptrs("matrix_vector_multiply", W, v, y)
    nm4, n4, m4 = pscale(pmul(n, m), 4), pscale(n, 4), pscale(m, 4)
    for kd, p, z in (("read", W, nm4), ("read", v, m4), ("write", y, n4)): I.access(kd, p, z, 4, ctx, ev.inst, st)
    for p, z in ((W, nm4), (v, m4)): _disjoint(ctx, y, n4, p, z, "matrix_vector_multiply")
    k, j = mk("lv", "k", key), mk("lv", "j", key)
    w = mk("ldm", st.get(W.base), padd(W.off, pscale(padd(pmul(A(k), m), A(j)), 4)), "f32")
    body = F("f+", rdm(st.get(y.base), y.off, k), mk_fsum(j, F("f*", rdm(st.get(v.base), v.off, j), w), ZERO, m))
    bvs, bd = close((k,), (body,))
    st.d[y.base] = mseg(bvs, bd, st.get(y.base), y.off, n, 4, "f32")
def k_outer(I, ev, st, ctx, key):
    n, m, x, y, M = ev.args
    _ptrs("vector_vector_outer", x, y, M)
    nm4, n4, m4 = pscale(pmul(n, m), 4), pscale(n, 4), pscale(m, 4)
    for kd, p, z in (("read", x, n4), ("read", y, m4), ("write", M, nm4)): I.access(kd, p, z, 4, ctx, ev.inst, st)
    for p, z in ((x, n4), (y, m4)): _disjoint(ctx, M, nm4, p, z, "vector_vector_outer")
    t, k = mk("lv", "t", key), mk("lv", "k", key)
    pre = st.get(M.base)
    lo = padd(M.off, pscale(pmul(A(t), m), 4))
    xi = rdm(st.get(x.base), x.off, t)
    body = ite(fcmp("oeq", xi, fc(0)), rdm(pre, lo, k), F("f*", xi, rdm(st.get(y.base), y.off, k)))
    bvs, bd = close((k,), (body,))
    row = mk("mseg", bvs, bd, mk("mhole"), lo, m, 4, "f32")
    bvs, bd = close((t,), (row, lo, padd(lo, m4)))
    st.d[M.base] = mloop(bvs, bd, pre, n)
KERNELS = {"vector_matrix_multiply": k_forward, "matrix_vector_multiply": k_backward, "vector_vector_outer": k_outer}

def with_arity(hooks, mod):
    """contracts only for routines that still have the arity they were written for"""
    ar = {"vector_matrix_multiply": 6, "matrix_vector_multiply": 5, "vector_vector_outer": 5, "vector_accumulate": 3, "vector_accumulate_unaligned": 3,
          "vector_divide_by_scalar": 3, "vector_scale": 3, "vector_saxpy": 4, "vector_saxpby": 5, "vector_square_elements": 3, "neuralnet_predict": 3, "neuralnet_backpropagation": 4}
    return {n: h for n, h in hooks.items() if n not in ar or (n in mod.funcs and len(mod.funcs[n].args) == ar[n])}

# ------------------------------------------------------------------ the vector kernels by contract (K01 decides the contracts)
def vec_contract(name, nargs, arrs, elem):
    """elem(args, read of operand i's element) -> new element of args[1]"""
    def h(I, ev, st, ctx, key):
        a = ev.args
        n, y = a[0], a[1]
        ps = [a[i] for i in arrs]
        _ptrs(name, y, *ps)
        n4 = pscale(n, 4)
        for p in ps: I.access("read", p, n4, 4, ctx, ev.inst, st)
        I.access("write", y, n4, 4, ctx, ev.inst, st)
        for p in ps:
            if p.base is y.base and p.off is not y.off: _disjoint(ctx, y, n4, p, n4, name)
        k = mk("lv", "k", key)
        body = elem(a, lambda i: rdm(st.get(a[i].base), a[i].off, k))
        bvs, bd = close((k,), (body,))
        st.d[y.base] = mseg(bvs, bd, st.get(y.base), y.off, n, 4, "f32")
    return h
VKERNELS = {
    "vector_accumulate": vec_contract("vector_accumulate", 3, (1, 2), lambda a, e: F("f+", e(1), e(2))),
    "vector_accumulate_unaligned": vec_contract("vector_accumulate_unaligned", 3, (1, 2), lambda a, e: F("f+", e(1), e(2))),
    "vector_scale": vec_contract("vector_scale", 3, (1,), lambda a, e: F("f*", e(1), a[2])),
    "vector_divide_by_scalar": vec_contract("vector_divide_by_scalar", 3, (1,), lambda a, e: F("f/", e(1), a[2])),
    "vector_saxpy": vec_contract("vector_saxpy", 4, (1, 3), lambda a, e: F("f+", e(1), F("f*", a[2], e(3)))),
    "vector_saxpby": vec_contract("vector_saxpby", 5, (1, 3), lambda a, e: F("f+", F("f*", e(1), a[4]), F("f*", a[2], e(3)))),
    "vector_square_elements": vec_contract("vector_square_elements", 3, (2,), lambda a, e: F("f*", e(2), e(2))),
}
BLK = {**KERNELS, **VKERNELS}

# ------------------------------------------------------------------ running a function on the model network
def run_net(ch, net, fname, args, bounds=None, hooks=None, facts=(), unroll=10, asgs=None, name=None, init=None, f=None, observe=None):
    f = f or fn(net.mod, fname)
    if len(args) != len(f.args): raise Anchor("%s takes %d arguments, %d expected" % (fname, len(f.args), len(args)))
    err = None
    for hk in ([with_arity(hooks, net.mod), {}] if hooks else [{}]):
        I = net.interp(unroll, hk)
        if init: I.initmem.update(init)
        b = None
        if bounds is not None:
            b = Bounds(ch, name or "%s/%d layers/%s" % (fname, net.L, net.mod.isa), bounds, I)
            I.on_access = b
        if observe is not None: I.on_access = observe(I)
        try: rv, st = I.run(f, args, Ctx(list(net.facts) + list(facts)))
        except Overlap as x:
            wit = overlap_witness(x.data, (asgs or []) + widths(net.L))
            if wit is None: err = x; continue
            nm = name or "%s/%d layers/%s" % (fname, net.L, net.mod.isa)
            ch.violate(nm + ": kernels get separate operands and results", where(f), wit)
            raise
        except Unsupported as x: err = x; continue
        ch.functions.update(I.funcs_seen)
        if b is not None: b.decide(asgs)
        return f, I, rv, st
    raise err
P_ = lambda n: mkptr(sym(n))
NMODS = [lambda isa=isa: nmodule(isa) for isa in ISAS]
LS = (1, 2, 3, 4)

# ------------------------------------------------------------------ N02
def n02_predict(ch, isa, L, contracts=True):
    mod = nmodule(isa)
    lab = "neuralnet_predict/%d layers/%s%s" % (L, isa, "" if contracts else "/kernels expanded")
    def go():
        net = Net(mod, L)
        f, I, rv, st = run_net(ch, net, "neuralnet_predict", [P_("nn"), P_("in"), P_("out")], hooks=KERNELS if contracts else None)
        w = where(f)
        mem_is(ch, lab + ": output", st, sym("out"), lambda o, a: Ref(o, a, L).fwd()[-1], widths(L), w, "prediction")
        preserved(ch, lab + ": only the output is written", I, st, {sym("out")}, w)
    guard(ch, lab, "neuralnet_predict", go)
def predict_hook(net):
    """a prediction by contract: output k is a function of k and of every element of the input row"""
    def h(I, ev, st, ctx, key):
        nn, x, y = ev.args
        _ptrs("neuralnet_predict", x, y)
        if not (isinstance(nn, Ptr) and nn.base is sym("nn") and nn.off is ZERO): raise Unsupported("prediction with an undetermined network")
        n0, nL = net.d[0], net.d[net.L]
        I.access("read", x, pscale(n0, 4), 4, ctx, ev.inst, st); I.access("write", y, pscale(nL, 4), 4, ctx, ev.inst, st)
        k, j = mk("lv", "k", key), mk("lv", "j", key)
        s = mk_fsum(j, F("f*", fcall("h#", itof(A(j))), rdm(st.get(x.base), x.off, j)), ZERO, n0)
        body = fcall("pred#", itof(A(k)), s)
        bvs, bd = close((k,), (body,))
        st.d[y.base] = mseg(bvs, bd, st.get(y.base), y.off, nL, 4, "f32")
    return h
def pred_ref(o, asg, L, row, xname="X"):
    d0, dL = asg["d0"], asg["d%d" % L]
    s = sum(fcall_val("h#", [float(j)]) * o.load(("sym", xname), 4 * (row * d0 + j), "f32") for j in range(d0))
    return [fcall_val("pred#", [float(k), s]) for k in range(dL)]
def batch_asgs(L):
    out = []
    for i, w in enumerate(widths(L)):
        for N in ((0, 1, 2, 5) if i % 2 else (3, 7, 16, 17)): out.append({**w, "N": N})
    return out
def n02_batch(ch, isa, L):
    mod = nmodule(isa)
    lab = "neuralnet_predict_batch/%d layers/%s" % (L, isa)
    N = isym("N")
    def go():
        net = Net(mod, L)
        f, I, rv, st = run_net(ch, net, "neuralnet_predict_batch", [P_("nn"), N, P_("X"), P_("out")], hooks={"neuralnet_predict": predict_hook(net)}, facts=[N])
        w = where(f)
        mem_is(ch, lab + ": output rows", st, sym("out"), lambda o, a: [v for i in range(a["N"]) for v in pred_ref(o, a, L, i)], batch_asgs(L), w, "batch prediction")
        preserved(ch, lab + ": only the output is written", I, st, {sym("out")}, w)
    guard(ch, lab, "neuralnet_predict_batch", go)
def N02():
    ch = Check("N02"); ch.floor = 8
    ch.rule = ("prediction is summarised for networks of 1..4 layers of any width (activations and weights unknown, kernels by their contracts, whose bodies are checked here too) and the "
               "summary of the caller's output compared with the layer-by-layer definition; batch prediction is summarised for any number of samples")
    from kernels import lemma_forward
    jobs = [(n02_predict, isa, L) for isa in ISAS for L in LS] + [(n02_predict, isa, 2, False) for isa in ISAS]
    jobs += [(n02_batch, isa, L) for isa in ("avx512", "sse") for L in (1, 3)] + [(lemma_forward, isa) for isa in ISAS]
    from omp import omp_jobs, OMODS
    jobs += omp_jobs(["batch"])
    parallel(ch, jobs, NMODS + KM + OMODS)
    return ch.finish()
from kernels import MODS as KM

# ------------------------------------------------------------------ N03
def n03_backprop(ch, isa, L):
    mod = nmodule(isa)
    lab = "neuralnet_backpropagation/%d layers/%s" % (L, isa)
    def go():
        net = Net(mod, L)
        f, I, rv, st = run_net(ch, net, "neuralnet_backpropagation", [P_("nn"), P_("in"), P_("target"), P_("grad")], hooks=BLK)
        w = where(f)
        for mode in ("normal", "zeros"):
            mem_is(ch, lab + ": gradient" + (" (with zeros)" if mode == "zeros" else ""), st, sym("grad"), lambda o, a: Ref(o, a, L).grad(), widths(L), w, "gradient", mode=mode)
        preserved(ch, lab + ": only the gradient is written", I, st, {sym("grad")}, w)
    guard(ch, lab, "neuralnet_backpropagation", go)
def N03():
    ch = Check("N03"); ch.floor = 8
    ch.rule = ("backpropagation is summarised for networks of 1..4 layers of any width with unknown activations, derivatives, loss, weights and gradient contents; every slot of the gradient "
               "in the summary is compared with the chain rule; the matrix kernels enter by contract and their bodies are checked against the contracts here too")
    from kernels import lemma_forward, lemma_backward, lemma_outer
    jobs = [(n03_backprop, isa, L) for isa in ISAS for L in LS]
    jobs += [(l, isa) for isa in ISAS for l in (lemma_forward, lemma_backward, lemma_outer)]
    parallel(ch, jobs, NMODS + KM)
    return ch.finish()

# ------------------------------------------------------------------ N04
def flat_ref(o, a, L):
    d = [a["d%d" % i] for i in range(L + 1)]
    out = []
    for l in range(L):
        out += [o.load(("sym", "B%d" % l), 4 * j, "f32") for j in range(d[l + 1])]
        out += [o.load(("sym", "W%d" % l), 4 * j, "f32") for j in range(d[l] * d[l + 1])]
    return out
def n04_count(ch, isa, L):
    lab = "parameter count/%d layers/%s" % (L, isa)
    def go():
        net = Net(nmodule(isa), L)
        f, I, rv, st = run_net(ch, net, "verif_count", [P_("nn")])
        w = where(fn(net.mod, "neuralnet_total_n_parameters") if "neuralnet_total_n_parameters" in net.mod.funcs else f)
        if isinstance(rv, P) and psub(rv, net.nparam()) is ZERO: ch.ok(lab, "equal to the specification for every size", w)
        else: compare_val(ch, lab, rv, net.nparam(), widths(L) + [{"d%d" % i: v for i in range(L + 1)} for v in (300, 900, 12000)], where=w, modes=("normal",), what="parameter count")
    guard(ch, lab, "neuralnet_total_n_parameters", go)
def n04_export(ch, isa, L):
    lab = "neuralnet_get_parameters/%d layers/%s" % (L, isa)
    def go():
        net = Net(nmodule(isa), L)
        f, I, rv, st = run_net(ch, net, "neuralnet_get_parameters", [P_("nn"), P_("params")])
        w = where(f)
        mem_is(ch, lab + ": exported vector", st, sym("params"), lambda o, a: flat_ref(o, a, L), widths(L), w, "parameter export")
        preserved(ch, lab + ": only the vector is written", I, st, {sym("params")}, w)
    guard(ch, lab, "neuralnet_get_parameters", go)
def n04_update(ch, isa, L, contracts):
    lab = "neuralnet_update/%d layers/%s%s" % (L, isa, "" if contracts else "/kernels expanded")
    def go():
        net = Net(nmodule(isa), L)
        f, I, rv, st = run_net(ch, net, "neuralnet_update", [P_("nn"), P_("delta")], hooks=VKERNELS if contracts else None)
        w = where(f)
        def ref(b, o, a):
            d = [a["d%d" % i] for i in range(L + 1)]
            off = 0
            for l in range(L):
                for nm, n in (("B%d" % l, d[l + 1]), ("W%d" % l, d[l] * d[l + 1])):
                    if nm == b: return [o.load(("sym", b), 4 * j, "f32") + o.load(("sym", "delta"), 4 * (off + j), "f32") for j in range(n)]
                    off += n
        ok = set()
        for l in range(L):
            for nm in ("B%d" % l, "W%d" % l):
                ok.add(sym(nm))
                mem_is(ch, lab + ": " + ("biases" if nm[0] == "B" else "weights") + " of layer %d" % l, st, sym(nm), lambda o, a, nm=nm: ref(nm, o, a), widths(L), w, "update of " + nm)
        preserved(ch, lab + ": only parameters are written", I, st, ok, w)
    guard(ch, lab, "neuralnet_update", go)
def N04():
    ch = Check("N04"); ch.floor = 8
    ch.rule = ("parameter count, export, update and gradient are summarised for networks of 1..4 layers of any width; count is compared as a polynomial, the others element by element with the "
               "layout bias, weights, layer by layer, including that nothing beyond the counted elements is touched")
    from kernels import lemma_vec
    jobs = [(n04_count, isa, L) for isa in ("avx512",) for L in LS] + [(n04_export, "avx512", L) for L in LS]
    jobs += [(n04_update, isa, L, True) for isa in ("avx512", "sse") for L in LS] + [(n04_update, isa, 2, False) for isa in ISAS]
    jobs += [(n03_backprop, "avx512", L) for L in (2, 3)] + [(lemma_vec, isa, "vector_accumulate_unaligned") for isa in ISAS]
    parallel(ch, jobs, NMODS + KM)
    return ch.finish()

# ------------------------------------------------------------------ N05
def n05_run(mod, L, acts, loss, deriv_init=True):
    """summarise neuralnet_set_loss on a network with the given activations, anything as loss and derivatives before"""
    net = Net(mod, L)
    y = net.lay
    nn, ly = net.init[sym("nn")], net.init[sym("layers")]
    nn = mk("mstore", nn, C(y["nn.loss"]), "ptr", mkptr(sym("oldloss")))
    for i, a in enumerate(acts):
        ly = mk("mstore", ly, C(i * y["l.size"] + y["l.act"]), "ptr", mkptr(mk("func", a)))
        ly = mk("mstore", ly, C(i * y["l.size"] + y["l.deriv"]), "ptr", mkptr(sym("oldderiv%d" % i)))
    net.init = {sym("nn"): nn, sym("layers"): ly}
    I = net.interp(12)
    I.hooks["get_activation_derivative_dynamic"] = lambda I, ev, st, ctx, key: mkptr(mk("func", "dynderiv#"))
    f = fn(mod, "neuralnet_set_loss")
    _, st = I.run(f, [P_("nn"), cstr(loss)], Ctx(net.facts))
    return net, f, I, st
def fld(st, base, off, tk):
    v = read(st.get(sym(base)), C(off), tk, Ctx())
    return conc_ptr(v) if tk == "ptr" else v
def isfn(p, name): return isinstance(p, Ptr) and p.base.op == "func" and p.base.a[0] == name and p.off is ZERO
def n05_case(ch, L):
    from kernels import ACTS, LOSSES, resolve_deriv
    mod = nmodule("avx512")
    y = layout(mod)
    act = {a: resolve_fn(mod, "get_activation_func", a).name for a in ACTS}
    der = {a: resolve_deriv(mod, a).name for a in ACTS}
    lf = {l: resolve_fn(mod, "get_loss_func", l).name for l in LOSSES}
    w = where(fn(mod, "neuralnet_set_loss"))
    k = 0
    for out in ACTS:
        for loss in LOSSES:
            k += 1
            names = [ACTS[(k * 5 + 3 * i) % len(ACTS)] for i in range(L - 1)] + [out]
            lab = "%s with output %s, %d layers" % (loss, out, L)
            def go():
                net, f, I, st = n05_run(mod, L, [act[a] for a in names], loss)
                ch.functions.update(I.funcs_seen)
                ident = (loss == "binary_crossentropy" and out == "sigmoid") or (loss == "categorical_crossentropy" and out == "softmax")
                got = fld(st, "nn", y["nn.loss"], "ptr")
                if not isfn(got, lf[loss]): ch.violate(lab + ": loss", w, "the loss is %s" % show(got)); return
                for i, a in enumerate(names):
                    want = der["linear"] if (i == L - 1 and ident) else der[a]
                    got = fld(st, "layers", i * y["l.size"] + y["l.deriv"], "ptr")
                    if not isfn(got, want):
                        ch.violate(lab + ": derivatives", w, "setting '%s' gives layer %d (%s) of %d the derivative %s instead of %s" % (loss, i, a, L, show(got), want)); return
                    got = fld(st, "layers", i * y["l.size"] + y["l.act"], "ptr")
                    if not isfn(got, act[a]): ch.violate(lab + ": activations", w, "layer %d's activation becomes %s" % (i, show(got))); return
                ch.ok(lab, "every derivative in the summary is the paired one", w)
                preserved(ch, lab + ": nothing else is written", I, st, {sym("nn"), sym("layers")}, w)
            guard(ch, lab, "neuralnet_set_loss", go)
    # a function of the user's own
    lab = "loaded activation, %d layers" % L
    def go():
        names = [act["tanh"]] * (L - 1) + ["user#"]
        for loss in ("mse", "binary_crossentropy", "categorical_crossentropy"):
            net, f, I, st = n05_run(mod, L, names, loss)
            got = fld(st, "layers", (L - 1) * y["l.size"] + y["l.deriv"], "ptr")
            if not isfn(got, "dynderiv#"): ch.violate(lab, w, "with loss '%s' the output layer's loaded activation gets the derivative %s" % (loss, show(got))); return
        ch.ok(lab, "every derivative in the summary is the paired one", w)
    if "get_activation_derivative_dynamic" in mod.funcs: guard(ch, lab, "neuralnet_set_loss", go)
    for bad in ("no_such_loss", "", "mean_squared_errors", "categorical_accuracy"):
        lab = "unknown loss '%s', %d layers" % (bad, L)
        def go():
            net, f, I, st = n05_run(mod, L, [act[ACTS[i]] for i in range(L)], bad)
            got = fld(st, "nn", y["nn.loss"], "ptr")
            if not (isinstance(got, Ptr) and got is NULL): ch.violate(lab, w, "the loss is %s, not NULL" % show(got)); return
            for i in range(L):
                for nm, tk, want in (("l.deriv", "ptr", mkptr(sym("oldderiv%d" % i))), ("l.act", "ptr", mkptr(mk("func", act[ACTS[i]]))), ("l.n_input", "i32", net.d[i]), ("l.n_output", "i32", net.d[i + 1])):
                    got = fld(st, "layers", i * y["l.size"] + y[nm], tk)
                    if got is not want: ch.violate(lab, w, "layer %d's %s changes to %s" % (i, nm[2:], show(got))); return
            ch.ok(lab, "no loss, layers as before", w)
        guard(ch, lab, "neuralnet_set_loss", go)
def N05():
    ch = Check("N05"); ch.floor = 100
    ch.rule = ("neuralnet_set_loss is summarised for every loss name, every output activation and 1..4 layers, with the previous loss and derivatives unknown; each layer's derivative "
               "pointer in the summary must be the one registered for its activation, the identity exactly for the two matching pairs; unknown names must leave the layers alone")
    parallel(ch, [(n05_case, L) for L in LS], [lambda: nmodule("avx512")])
    return ch.finish()

# ------------------------------------------------------------------ N01
def rd_name(mod, getter, f, init=None):
    """the constant string a name getter returns for a function"""
    g = fn(mod, getter)
    I = Interp(mod); I.unroll = 12
    if init: I.initmem.update(init)
    r, _ = I.run(g, [mkptr(mk("func", f))])
    r = conc_ptr(r)
    return I.cstr(r), r
def no_records(mod):
    return {mk("global", "records"): mk("mstore", mk("minit", mk("global", "records")), ZERO, "ptr", NULL)}
def n01_tables(ch):
    from kernels import ACTS, LOSSES, METRICS, resolve_deriv
    mod = nmodule("avx512")
    nr = no_records(mod)
    alias = {"mse": "mean_squared_error", "mae": "mean_absolute_error", "mape": "mean_absolute_percentage_error"}
    canon = {}
    for kind, names, get, back in (("activation", ACTS, "get_activation_func", "get_activation_name"), ("loss", LOSSES, "get_loss_func", "get_loss_name"), ("metric", METRICS, "get_metric_func", "get_metric_name")):
        w = where(fn(mod, get)); wb = where(fn(mod, back))
        fs = {}
        for n in names:
            r = resolve(mod, get, n)
            if isinstance(r, Ptr) and r.base.op == "func" and r.off is ZERO: fs[n] = r.base.a[0]; ch.ok("%s '%s' resolves" % (kind, n), "summary is a function", w)
            elif r is NULL or (isinstance(r, Ptr) and r.base.op == "dynsym"): ch.violate("%s '%s' resolves" % (kind, n), w, "%s(\"%s\") finds no function" % (get, n))
            else: ch.undecided("%s '%s' resolves" % (kind, n), "summary " + show(r), w)
        for n in fs:
            for n2 in fs:
                if n < n2:
                    same = alias.get(n, n) == alias.get(n2, n2)
                    if (fs[n] == fs[n2]) != same:
                        ch.violate("%s '%s' and '%s' %s" % (kind, n, n2, "are one" if same else "differ"), w, "they resolve to %s and %s" % (fs[n], fs[n2]))
        ch.ok("%s names resolve to distinct functions, aliases to one" % kind, "pairwise comparison", w)
        for n, f in fs.items():
            s, r = rd_name(mod, back, f, None)
            if s is None:
                s, r = rd_name(mod, back, f, nr)
            lab = "%s '%s' -> function -> name -> function" % (kind, n)
            if s is None: ch.undecided(lab, "name is " + show(r), wb); continue
            if s not in names: ch.violate(lab, wb, "%s is named \"%s\", which is not a registered name" % (f, s)); continue
            r2 = resolve(mod, get, s)
            if isfn(r2, f): ch.ok(lab, "summaries compose to the same function", wb)
            else: ch.violate(lab, wb, "%s is named \"%s\", which resolves to %s" % (f, s, show(r2)))
            canon[kind, n] = s
        # unknown function
        s, r = rd_name(mod, back, "some_other_function", nr if kind == "activation" else None)
        lab = "unknown %s function" % kind
        if s == "(unknown)": ch.ok(lab, "summary is the string", wb)
        elif s is not None: ch.violate(lab, wb, "named \"%s\"" % s)
        else: ch.undecided(lab, "name is " + show(r), wb)
        if kind == "activation": continue
        # every other string: all comparisons with known text fail
        I = Interp(mod, hooks={"strcmp": lambda I, ev, st, ctx, key: ONE, "strncmp": lambda I, ev, st, ctx, key: ONE, "strcasecmp": lambda I, ev, st, ctx, key: ONE}); I.unroll = 40
        try:
            r, _ = I.run(fn(mod, get), [mkptr(sym("anyname"))])
            r = conc_ptr(r)
            if r is NULL: ch.ok("any other %s name" % kind, "summary under failing comparisons is NULL", w)
            elif isinstance(r, Ptr): ch.violate("any other %s name" % kind, w, "resolves to " + show(r))
            else: ch.undecided("any other %s name" % kind, show(r), w)
        except Unsupported as x: ch.undecided("any other %s name" % kind, x, w)
        for bad in ("", "ms", "msee", "MSE", "mean_squared", "binary_crossentropy ", "linear", "(unknown)", "no_such"):
            r = resolve(mod, get, bad)
            if r is NULL: ch.ok("%s name '%s' unknown" % (kind, bad), "summary is NULL", w)
            elif isinstance(r, Ptr): ch.violate("%s name '%s' unknown" % (kind, bad), w, "resolves to " + show(r))
    # every loss has a metric of the same name
    wm = where(fn(mod, "get_metric_func"))
    for (kind, n), s in list(canon.items()):
        if kind != "loss": continue
        lab = "loss '%s' has a metric of its name" % s
        r = resolve(mod, "get_metric_func", s)
        if isinstance(r, Ptr) and r.base.op == "func":
            b, _ = rd_name(mod, "get_metric_name", r.base.a[0])
            if b == s: ch.ok(lab, "summaries compose", wm)
            elif b is None: ch.undecided(lab, "metric name", wm)
            else: ch.violate(lab, wm, "the metric '%s' calls itself '%s'" % (s, b))
        else: ch.violate(lab, wm, "get_metric_func(\"%s\") is %s" % (s, show(r)))
    # derivatives
    ders = {}
    wd = where(fn(mod, "get_activation_derivative"))
    for a in ACTS:
        try: ders[a] = resolve_deriv(mod, a).name; ch.ok("activation '%s' has a derivative" % a, "summary is a function", wd)
        except Anchor: ch.violate("activation '%s' has a derivative" % a, wd, "get_activation_derivative finds none")
    for a in ders:
        for b in ders:
            if a < b and ders[a] == ders[b] and {a, b} != {"linear", "softmax"}:
                ch.violate("derivatives of '%s' and '%s' differ" % (a, b), wd, "both are %s" % ders[a])
    ch.ok("derivatives are each activation's own", "pairwise comparison", wd)
def n01_dynamic(ch):
    """activations loaded from libraries: registered under their full name, found again by function"""
    mod = nmodule("avx512")
    if "get_activation_func_dynamic" not in mod.funcs: return
    cnt = [0]
    syms = []
    def h_dlsym(I, ev, st, ctx, key):
        cnt[0] += 1
        p = mkptr(mk("func", "loaded#%d" % cnt[0])); syms.append(p); return p
    def h_at(I, ev, st, ctx, key):
        p = ev.args[0]
        if not isinstance(p, Ptr): return NotImplemented
        return mkptr(p.base, padd(p.off, C(AT)))
    hooks = {"dlopen": lambda *a: mkptr(mk("func", "handle#")), "dlsym": h_dlsym, "dlerror": lambda *a: NULL, "strchr": h_at, "atexit": lambda *a: ZERO}
    st = None
    names = ["fa@liba.so", "fb@libb.so", "fc@libc.so"]
    pairs = []
    f = fn(mod, "get_activation_func")
    w = where(fn(mod, "get_activation_func_dynamic"))
    I = Interp(mod, hooks=hooks); I.unroll = 12
    I.initmem.update(no_records(mod))
    AT = 2
    for n in names:
        n0 = cnt[0]
        st = St({}, I.default_root) if st is None else st
        r, st = I.call(f, [cstr(n)], st, Ctx(), (n,))
        r = conc_ptr(r)
        if not (isinstance(r, Ptr) and any(r is s for s in syms[n0:])): ch.undecided("loading '%s'" % n, show(r), w); return
        pairs.append((n, r, [s for s in syms[n0:] if s is not r]))
    for n, r, ds in pairs:
        v, _ = I.call(fn(mod, "get_activation_name"), [r], st.copy(), Ctx(), ("name", n))
        v = conc_ptr(v)
        lab = "name of a loaded activation (%s of %d)" % (n, len(names))
        if not isinstance(v, Ptr): ch.undecided(lab, show(v), w); continue
        txt = ""
        if I.cstr(v) is not None: txt = I.cstr(v)
        else:
            e = Ev(Oracle(1))
            try:
                for i in range(40):
                    b = e.mread(st.get(v.base), v.off.const() + i, "i8", {})
                    if not int(b): break
                    txt += chr(int(b))
            except (Unknown, OutOfSpec) as x: ch.undecided(lab, x, w); continue
        if txt == n: ch.ok(lab, "summary of the registry's contents", w)
        else: ch.violate(lab, w, "the function registered as \"%s\" is called \"%s\"" % (n, txt))
        v, _ = I.call(fn(mod, "get_activation_derivative"), [r], st.copy(), Ctx(), ("deriv", n))
        v = conc_ptr(v)
        lab = "derivative of a loaded activation (%s of %d)" % (n, len(names))
        if any(v is d for d in ds): ch.ok(lab, "summary of the registry's contents", w)
        elif isinstance(v, Ptr): ch.violate(lab, w, "the derivative of \"%s\" is %s" % (n, show(v)))
        else: ch.undecided(lab, show(v), w)
def N01():
    ch = Check("N01"); ch.floor = 60
    ch.rule = ("the registries are summarised for every documented name, for an arbitrary other string (all comparisons failing) and for every registered function; the mappings are composed and "
               "compared; the functions reached are compared with what their name means; libraries loaded one after the other are followed through the registry's memory")
    import kernels as k
    jobs = [(n01_a,), (n01_b,)] + [(k.lemma_act, "avx512", a) for a in k.ACTS] + [(k.lemma_deriv, "avx512", a) for a in k.ACTS]
    jobs += [(k.lemma_metric, "avx512", a) for a in k.METRICS] + [(k.lemma_loss, "avx512", a) for a in k.LOSSES]
    parallel(ch, jobs, [lambda: nmodule("avx512"), lambda: module("avx512")])
    return ch.finish()
def n01_a(ch): guard(ch, "registries", "activation.c, loss.c, metrics.c", lambda: n01_tables(ch))
def n01_b(ch): guard(ch, "loaded activations", "activation.c", lambda: n01_dynamic(ch))

# ------------------------------------------------------------------ N06
import math
import ranges
RP = "function(sroa,early-cse<memssa>,gvn,simplifycfg,loop-simplify)"
def draw_hook(kind, sites):
    """a random draw: a fresh unknown per call site and iteration, read from a virtual array"""
    def h(I, ev, st, ctx, key):
        s = sites.setdefault((kind, key), len(sites))
        off = C(s << 50)
        for i, l in enumerate(reversed(I.loopstack)): off = padd(off, pscale(A(l.t), 4 << (20 * i)))
        return wrap(mk("ld", sym(kind), off, "i32" if kind == "RND" else "f32"), "i32" if kind == "RND" else "f32")
    return h
class DrawOracle(Oracle):
    """remembers which draws an element used"""
    def __init__(self, seed, mode="normal"):
        Oracle.__init__(self, seed, mode); self.used = []; self.force = None
    def load(self, key, off, tk):
        if key in (("sym", "RND"), ("sym", "NRM")):
            self.used.append((key[1], off))
            r = random.Random(repr((self.seed, key, off)))
            if key[1] == "RND": return self.force if self.force is not None else r.randint(0, 2147483647)
            return r.gauss(0, 1)
        return Oracle.load(self, key, off, tk)
INITS = mk("global", "inits#")
def n06_case(ch, L):
    from kernels import ACTS
    mod = nmodule("avx512")
    y = layout(mod)
    f = fn(mod, "neuralnet_initialize")
    w = where(f)
    xav = ("sigmoid", "tanh", "softmax", "hard_sigmoid", "softsign")
    kai = ("relu", "softplus")
    act = {a: resolve_fn(mod, "get_activation_func", a).name for a in ACTS}
    cases = [(None, a) for a in ACTS] + [("xavier", "relu"), ("kaiming", "tanh"), ("xavier", "linear"), ("kaiming", "linear"), ("auto", "tanh"), ("", "softplus"), ("none", "exponential"), ("", "linear")]
    norm_hooked = "random_normal" in mod.funcs
    for ci, (ini, a) in enumerate(cases):
        acts = [ACTS[(ci + 2 * i) % len(ACTS)] for i in range(L - 1)] + [a]
        inis = None if ini is None else [("xavier", "kaiming", "")[(ci + i) % 3] for i in range(L - 1)] + [ini]
        lab = "initialising %s with %s" % ("/".join(acts), "no list" if inis is None else "/".join("'%s'" % s for s in inis))
        def go():
            net = Net(mod, L)
            ly = net.init[sym("layers")]
            for i, x in enumerate(acts): ly = mk("mstore", ly, C(i * y["l.size"] + y["l.act"]), "ptr", mkptr(mk("func", act[x])))
            net.init[sym("layers")] = ly
            sites = {}
            hooks = {"rand": draw_hook("RND", sites)}
            if norm_hooked: hooks["random_normal"] = draw_hook("NRM", sites)
            I = net.interp(14, hooks)
            I.initmem.update(no_records(mod))
            if inis is not None:
                lst = mk("minit", INITS)
                for i, s in enumerate(inis): lst = mk("mstore", lst, C(8 * i), "ptr", cstr(s))
                I.initmem[INITS] = lst
            rv, st = I.run(f, [P_("nn"), NULL if inis is None else mkptr(INITS)], Ctx(net.facts))
            ch.functions.update(I.funcs_seen)
            ok = {sym(n + str(l)) for n in "WB" for l in range(L)}
            seen = set()
            for ai, asg in enumerate(widths(L)):
                seen.clear()
                d = [asg["d%d" % i] for i in range(L + 1)]
                for l in range(L):
                    kind = inis[l] if inis is not None and inis[l] in ("xavier", "kaiming") else "xavier" if acts[l] in xav else "kaiming" if acts[l] in kai else "normal"
                    scale = {"xavier": math.sqrt(6.0 / (d[l] + d[l + 1])), "kaiming": math.sqrt(2.0 / d[l]), "normal": 1.0}[kind]
                    o = DrawOracle((SEED, "n06", ai)); e = Ev(o, envs(asg))
                    for k in range(d[l + 1]):
                        v = e.mread(st.get(sym("B%d" % l)), 4 * k, "f32", {})
                        if v != 0: ch.violate(lab + ": biases", w, "bias %d of layer %d is %r with widths %s" % (k, l, v, asg)); return
                    n = d[l] * d[l + 1]
                    for k in range(n):
                        o.used = []; e.memo.clear()
                        v = e.mread(st.get(sym("W%d" % l)), 4 * k, "f32", {})
                        u = list(o.used)
                        what = "weight %d of layer %d (%s) with widths %s" % (k, l, acts[l], asg)
                        if ("ld-init" if not u else None): ch.violate(lab + ": weights", w, "%s is not given a random value (it is %r)" % (what, v)); return
                        if len(set(u)) != 1: ch.undecided(lab + ": weights", "%s uses %d draws" % (what, len(set(u))), w); return
                        q = u[0]
                        if (l, q) in seen or q in seen: ch.violate(lab + ": weights", w, "%s repeats the draw of another weight" % what); return
                        seen.add(q)
                        if kind == "xavier":
                            if q[0] != "RND": ch.violate(lab + ": weights", w, "%s is drawn from the normal distribution instead of the uniform one" % what); return
                            if k < 3 or k == n - 1:
                                pts = []
                                for fr in (0, 0.25, 0.5, 0.75, 1):
                                    o.force = int(round(fr * 2147483647)); e.memo.clear()
                                    pts.append(e.mread(st.get(sym("W%d" % l)), 4 * k, "f32", {}))
                                o.force = None
                                want = [scale * (2 * fr - 1) for fr in (0, 0.25, 0.5, 0.75, 1)]
                                if not (all(close_to(p, q_, 1e-4, 1e-6) for p, q_ in zip(pts, want)) or all(close_to(p, -q_, 1e-4, 1e-6) for p, q_ in zip(pts, want))):
                                    ch.violate(lab + ": weights", w, "%s runs over %s as the generator runs over its range, not uniformly over +-%g" % (what, ["%.5g" % p for p in pts], scale)); return
                        elif norm_hooked:
                            if q[0] != "NRM": ch.violate(lab + ": weights", w, "%s is drawn from the uniform distribution instead of the normal one" % what); return
                            if not close_to(v, scale * o.load(("sym", "NRM"), q[1], "f32"), 1e-4, 1e-6):
                                ch.violate(lab + ": weights", w, "%s is %.6g times the normal draw, not %.6g" % (what, v / (o.load(("sym", "NRM"), q[1], "f32") or 1), scale)); return
                    e = Ev(Oracle((SEED, "n06o", ai)), envs(asg))
                    for nm, cnt in (("W%d" % l, n), ("B%d" % l, d[l + 1])):
                        for k in list(range(-9, 0)) + list(range(cnt, cnt + 9)):
                            if e.mread(st.get(sym(nm)), 4 * k, "f32", {}) != e.mread(mk("minit", sym(nm)), 4 * k, "f32", {}):
                                ch.violate(lab + ": nothing else", w, "element %d outside %s is written, widths %s" % (k, nm, asg)); return
            ch.ok(lab, "summary agrees with the specification (identity testing)", w)
            preserved(ch, lab + ": only parameters are written", I, st, ok, w)
        def safe():
            try: go()
            except Unknown as x: ch.undecided(lab, "cannot evaluate the summary: %s" % x, w)
            except OutOfSpec as x: ch.violate(lab, w, str(x))
        guard(ch, lab, "neuralnet_initialize", safe)
def n06_ranges(ch):
    mod = module("sse", passes=RP)
    for name in ("random_uniform", "random_normal"):
        if name not in mod.funcs or mod.funcs[name].decl:
            ch.undecided(name + ": always finite", "no such function"); continue
        w = where(mod.funcs[name])
        Rg = ranges.Ranges(mod, {"rand": ranges.R(0, 2147483647, 1.0)})
        r = Rg.analyse(name)
        ch.functions.add(name)
        if not Rg.alarms and not Rg.unknown and not r.nan and abs(r.lo) <= ranges.FMAX and abs(r.hi) <= ranges.FMAX:
            ch.ok(name + ": always finite", "interval analysis: %r" % r, w)
            if name == "random_uniform":
                if r.lo >= -1 and r.hi <= 1: ch.ok(name + ": within [-1,1]", "interval analysis", w)
            continue
        hit = None
        for v in (2**30, 2**30 - 64, 2**30 + 64, 0, 2147483647, 2**30 - 32, 2**30 + 1, 2**30 + 128, 2**29):
            Rp = ranges.Ranges(mod, {"rand": ranges.pt(float(v))})
            rp = Rp.analyse(name)
            if Rp.unknown: continue
            if Rp.alarms:
                i, t = sorted(Rp.alarms.items(), key=lambda z: z[0].id)[0]
                hit = (i, t, v); break
        if hit: ch.violate(name + ": always finite", "%s:%s (%s)" % (rel(hit[0].file), hit[0].line, name), "%s when rand() returns %d" % (hit[1], hit[2]))
        else: ch.undecided(name + ": always finite", "%r %s %s" % (r, list(Rg.alarms.values())[:2], Rg.unknown[:2]), w)
def n06_normal(ch):
    """the two results of a pair of accepted draws u, v are u*sqrt(-2 ln S/S) and v*sqrt(-2 ln S/S), S=u^2+v^2"""
    mod = module("sse", passes=RP)
    if "random_normal" not in mod.funcs: return
    f = mod.funcs["random_normal"]; w = where(f)
    lab = "random_normal: unit variance"
    leaves_, stores = {}, {}
    for b in f.blocks:
        for x in b.insts:
            if x.op == "store" and x.ops[1].kind == "global" and x.ops[0].ty.k == "float": stores.setdefault(x.ops[1].name, []).append(x.ops[0])
    class No(Exception): pass
    def val(v, env):
        if v.kind in ("fp", "int"): return float(v.v)
        if v.kind != "inst": raise No()
        x = v.inst
        if x.op in ("fadd", "fsub", "fmul", "fdiv", "fneg"):
            a = [val(o, env) for o in x.ops]
            return {"fadd": lambda: a[0] + a[1], "fsub": lambda: a[0] - a[1], "fmul": lambda: a[0] * a[1], "fdiv": lambda: a[0] / a[1], "fneg": lambda: -a[0]}[x.op]()
        if x.op in ("fpext", "fptrunc"): return val(x.ops[0], env)
        if x.op == "call" and x.callee.kind == "func":
            n = x.callee.name
            if n.startswith("llvm.fmuladd"): a = [val(o, env) for o in x.args]; return a[0] * a[1] + a[2]
            if n in ("logf", "log"): return math.log(val(x.args[0], env))
            if n in ("sqrtf", "sqrt", "llvm.sqrt.f32"): return math.sqrt(val(x.args[0], env))
            if n == "random_uniform":
                return env["draw"][env["order"].index(x)]
            raise No()
        if x.op == "load" and x.ops[0].kind == "global":
            n = x.ops[0].name
            if len(stores.get(n, ())) == 1: return val(stores[n][0], env)
        raise No()
    calls = [x for b in f.blocks for x in b.insts if x.op == "call" and x.callee.kind == "func" and x.callee.name == "random_uniform"]
    ret = [b.insts[-1].ops[0] for b in f.blocks if b.insts[-1].op == "ret"]
    arms = []
    for r in ret:
        if r.kind == "inst" and r.inst.op == "phi": arms += [v for v, _ in r.inst.inc]
        elif r.kind == "inst" and r.inst.op == "select": arms += r.inst.ops[1:]
        else: arms.append(r)
    if len(calls) != 2 or len(arms) != 2: ch.undecided(lab, "another shape of generator", w); return
    rng = random.Random(SEED)
    try:
        for k in range(20):
            u, v = rng.uniform(-.7, .7), rng.uniform(-.7, .7)
            s = u * u + v * v; fac = math.sqrt(-2 * math.log(s) / s)
            got = sorted(val(a, dict(draw=(u, v), order=calls)) for a in arms)
            if not all(close_to(p, q, 1e-5, 1e-6) for p, q in zip(got, sorted((u * fac, v * fac)))):
                ch.violate(lab, w, "for accepted draws u=%.4f v=%.4f the two results are %.5f and %.5f; the polar method gives %.5f and %.5f" % (u, v, got[0], got[1], *sorted((u * fac, v * fac)))); return
        ch.ok(lab, "results' expressions agree with the polar method (identity testing)", w)
    except No: ch.undecided(lab, "expression outside the rule", w)
    except (ValueError, ZeroDivisionError) as x: ch.violate(lab, w, "the result's expression is undefined for accepted draws (%s)" % x)
def N06():
    ch = Check("N06"); ch.floor = 30
    ch.rule = ("neuralnet_initialize is summarised for every activation and initializer on 1..3 layers of any width with each random draw a fresh unknown: every weight must be one distinct draw of the "
               "documented distribution times the documented scale, biases zero; the generators are shown finite for every outcome of rand() by interval analysis with branch refinement")
    parallel(ch, [(n06_case, L) for L in (1, 2, 3)] + [(n06_ranges,), (n06_normal,)], [lambda: nmodule("avx512"), lambda: module("sse", passes=RP)])
    return ch.finish()
