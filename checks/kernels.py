"""K01-K07: kernels, activations, losses and metrics against their mathematical definition, on every instruction set"""
from common import *

n_, q_ = isym("n"), isym("q")
def F(op, *a): return fop(op, *a)
def ldf(name, off): return mk("ld", sym(name), off, "f32")
def el(name, i): return ldf(name, pscale(i, 4))
def ctx_facts(): return [n_, q_, psub(psub(n_, ONE), q_)]

def NS(lo=0): return [dict(n=n) for n in samplers(None, lo)]

def isas(): return ISAS
MODS = [lambda isa=isa: module(isa) for isa in ISAS]

def run_fn(ch, isa, fname, spec, facts, initmem=None, bounds=None, f=None, mod=None, asgs=None, hooks=None):
    mod = mod or module(isa)
    f = f or fn(mod, fname)
    args = symargs(f, spec)
    I = Interp(mod, hooks=hooks)
    if initmem: I.initmem.update(initmem)
    b = None
    if bounds is not None:
        b = Bounds(ch, "%s/%s" % (f.name, isa), bounds, I)
        I.on_access = b
    rv, st = I.run(f, args, Ctx(facts))
    ch.functions.update(I.funcs_seen)
    if b is not None: b.decide(asgs)
    return f, I, rv, st

def guard(ch, name, w, thunk):
    try: thunk()
    except Unsupported as x: ch.undecided(name, "construct outside the analysis: %s" % x, w)

# ------------------------------------------------------------------ K01
VEC = {
    "vector_accumulate": (("i:n", "p:a", "p:b"), "a", lambda: F("f+", el("a", q_), el("b", q_))),
    "vector_accumulate_unaligned": (("i:n", "p:a", "p:b"), "a", lambda: F("f+", el("a", q_), el("b", q_))),
    "vector_scale": (("i:n", "p:a", "f:s"), "a", lambda: F("f*", el("a", q_), sym("s"))),
    "vector_divide_by_scalar": (("i:n", "p:a", "f:s"), "a", lambda: F("f/", el("a", q_), sym("s"))),
    "vector_saxpy": (("i:n", "p:a", "f:s", "p:b"), "a", lambda: F("f+", el("a", q_), F("f*", sym("s"), el("b", q_)))),
    "vector_saxpby": (("i:n", "p:a", "f:s", "p:b", "f:t"), "a", lambda: F("f+", F("f*", el("a", q_), sym("t")), F("f*", sym("s"), el("b", q_)))),
    "vector_square_elements": (("i:n", "p:a", "p:b"), "a", lambda: F("f*", el("b", q_), el("b", q_))),
}
def K01():
    ch = Check("K01")
    ch.rule = ("each elementwise vector kernel is summarised (loops collapsed to closed forms valid for every length) for four instruction sets and the "
               "summary of the result array compared with the documented operation, its extent with [0,n), and every access with the n-element arrays")
    ch.floor = 40
    parallel(ch, [(lemma_vec, isa, name) for isa in isas() for name in VEC], MODS)
    return ch.finish()
def lemma_vec(ch, isa, name):
    spec, out, sp = VEC[name]
    lab = "%s/%s" % (name, isa)
    def go():
        ext = {sym(s[2:]): pscale(n_, 4) for s in spec if s[0] == "p"}
        f, I, rv, st = run_fn(ch, isa, name, spec, [n_], bounds=ext, asgs=NS())
        elementwise(ch, lab, f, st, sym(out), sp(), "q", ctx_facts(), NS(), lambda a: a["n"])
        untouched(ch, lab, f, st, {sym(out)})
    guard(ch, lab, name, go)

# ------------------------------------------------------------------ K02
def mn_asgs():
    out = []
    for r in (0, 1, 2, 3, 5, 8, 17):
        for c in (0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 25, 31, 33): out.append(dict(m=r, n=c))
    out += [dict(m=r, n=c) for r in (16, 24, 32, 40, 47, 63) for c in (1, 3, 8, 19)]
    out += [dict(m=64, n=64), dict(m=33, n=70), dict(m=70, n=33)]
    return out
m_ = isym("m")
def lemma_forward(ch, isa):
    def fwd():
        lab = "vector_matrix_multiply/%s" % isa
        spec = ("i:n", "i:m", "p:W", "p:bias", "p:x", "p:y")
        ext = {sym("W"): pscale(pmul(n_, m_), 4), sym("bias"): pscale(m_, 4), sym("x"): pscale(n_, 4), sym("y"): pscale(m_, 4)}
        f, I, rv, st = run_fn(ch, isa, "vector_matrix_multiply", spec, [n_, m_], bounds=ext, asgs=mn_asgs())
        k = mk("lv", "k", ())
        body = F("f*", el("x", A(k)), ldf("W", padd(pscale(pmul(A(k), m_), 4), pscale(q_, 4))))
        sp = F("f+", el("bias", q_), mk_fsum(k, body, ZERO, n_))
        elementwise(ch, lab, f, st, sym("y"), sp, "q", [n_, m_, q_, psub(psub(m_, ONE), q_)], mn_asgs(), lambda a: a["m"], modes=("normal", "zeros"))
        untouched(ch, lab, f, st, {sym("y")})
    guard(ch, "vector_matrix_multiply/" + isa, "vector_matrix_multiply", fwd)
def lemma_backward(ch, isa):
    def bwd():
        lab = "matrix_vector_multiply/%s" % isa
        spec = ("i:m", "i:n", "p:W", "p:v", "p:y")
        ext = {sym("W"): pscale(pmul(n_, m_), 4), sym("v"): pscale(n_, 4), sym("y"): pscale(m_, 4)}
        zero = {sym("y"): mk("mfill", mk("minit", sym("y")), ZERO, pscale(m_, 4), ZERO)}
        f, I, rv, st = run_fn(ch, isa, "matrix_vector_multiply", spec, [n_, m_], initmem=zero, bounds=ext, asgs=mn_asgs())
        k = mk("lv", "k", ())
        sp = mk_fsum(k, F("f*", el("v", A(k)), ldf("W", padd(pscale(pmul(q_, n_), 4), pscale(A(k), 4)))), ZERO, n_)
        elementwise(ch, lab, f, st, sym("y"), sp, "q", [n_, m_, q_, psub(psub(m_, ONE), q_)], mn_asgs(), lambda a: a["m"], modes=("normal",))
        untouched(ch, lab, f, st, {sym("y")})
    guard(ch, "matrix_vector_multiply/" + isa, "matrix_vector_multiply", bwd)
def lemma_outer(ch, isa):
    def outer():
        lab = "vector_vector_outer/%s" % isa
        spec = ("i:m", "i:n", "p:x", "p:y", "p:M")
        mn4 = pscale(pmul(n_, m_), 4)
        ext = {sym("M"): mn4, sym("x"): pscale(m_, 4), sym("y"): pscale(n_, 4)}
        zero = {sym("M"): mk("mfill", mk("minit", sym("M")), ZERO, mn4, ZERO)}
        f, I, rv, st = run_fn(ch, isa, "vector_vector_outer", spec, [n_, m_], initmem=zero, bounds=ext, asgs=mn_asgs())
        w = where(f)
        sp = F("f*", el("x", isym("i")), el("y", isym("j")))
        r = compare_at(ch, lab + ": value", st, sym("M"), lambda a: [(4 * (i * a["n"] + j), dict(i=i, j=j)) for i in range(a["m"]) for j in range(a["n"])], sp, mn_asgs(), modes=("normal", "zeros"), where=w)
        if r: ch.ok(lab + ": value", "summary agrees with the specification (identity testing)", w)
        orig = mk("ld", sym("M"), pscale(isym("i"), 4), "f32")
        r = compare_at(ch, lab + ": outside", st, sym("M"), lambda a: [(4 * i, dict(i=i)) for i in list(range(-18, 0)) + list(range(a["m"] * a["n"], a["m"] * a["n"] + 18))], orig, mn_asgs(), modes=("normal",), where=w)
        if r: ch.ok(lab + ": nothing outside written", "summary agrees with the specification (identity testing)", w)
        untouched(ch, lab, f, st, {sym("M")})
    guard(ch, "vector_vector_outer/" + isa, "vector_vector_outer", outer)
def K02():
    ch = Check("K02")
    ch.rule = ("the three matrix kernels are summarised for every shape on four instruction sets; each result element is compared with the sum over all "
               "terms of the affine map, the row product and the outer product, the written extent with the result array and every access with its matrix")
    ch.floor = 16
    parallel(ch, [(l, isa) for isa in isas() for l in (lemma_forward, lemma_backward, lemma_outer)], MODS)
    return ch.finish()

# ------------------------------------------------------------------ K03
ACTS = ("softplus", "softsign", "hard_sigmoid", "exponential", "linear", "relu", "softmax", "sigmoid", "tanh")
def act_spec(name):
    x = el("a", q_)
    if name == "sigmoid": return F("f/", fc(1), F("f+", fc(1), fcall("exp", F("fneg", x))))
    if name == "tanh": return fcall("tanh", x)
    if name == "softplus": return fcall("log", F("f+", fc(1), fcall("exp", x)))
    if name == "softsign": return F("f/", x, F("f+", fc(1), fcall("fabs", x)))
    if name == "relu": return fcall("fmax", fc(0), x)
    if name == "hard_sigmoid": return fcall("fmax", fc(0), fcall("fmin", fc(1), F("f+", fc(0.5), F("f*", fc(0.2), x))))
    if name == "exponential": return fcall("exp", x)
    if name == "linear": return x
    if name == "softmax":
        k = mk("lv", "k", ()); mx = softmax_max()
        return F("f/", fcall("exp", F("f-", x, mx)), mk_fsum(k, fcall("exp", F("f-", el("a", A(k)), mx)), ZERO, n_))
def softmax_max():
    t, s = mk("lv", "t", ()), mk("phi", "mx", ("spec",), "float")
    bvs, bd = close((t, s), (fcall("fmax", s, el("a", A(t))),))
    return mk("rec", bvs, bd, (fc(-1e30),), n_, 0, ("float",))
class ActOracle(Oracle):
    """addresses of every residue, so that peel loops run any number of times; saturating inputs"""
    def __init__(self, seed, mode="normal"):
        Oracle.__init__(self, seed, mode)
        if mode == "wide": self.objmode[("sym", "a")] = lambda r, k: r.uniform(-20, 20)
        if mode == "big": self.objmode[("sym", "a")] = lambda r, k: r.choice((50.0, 70.0, -60.0, 30.0, 10.0, -10.0, 85.0))
        if mode == "huge": self.objmode[("sym", "a")] = lambda r, k: 1000.0 + r.uniform(-20, 20)
    def addr(self, key):
        r = random.Random(repr((self.seed, "addr", key)))
        return 4 * r.randint(1, 1 << 12) if r.random() < 0.7 else 64 * r.randint(1, 1 << 12)
def K03():
    ch = Check("K03")
    ch.rule = ("every activation reachable by name through the registry is summarised for all lengths and buffer alignments on four instruction sets; "
               "SIMD body, peeled head and remainder must denote the named function on each of the n elements")
    ch.floor = 60
    parallel(ch, [(lemma_act, isa, name) for isa in isas() for name in ACTS], MODS)
    return ch.finish()
def lemma_act(ch, isa, name):
            mod = module(isa)
            lab = "%s/%s" % (name, isa)
            def go():
                f = resolve_fn(mod, "get_activation_func", name)
                lo = 1 if name == "softmax" else 0
                f, I, rv, st = run_fn(ch, isa, f.name, ("i:n", "p:a"), [psub(n_, C(lo))], bounds={sym("a"): pscale(n_, 4)}, f=f, mod=mod, asgs=NS(lo))
                approx = name in ("sigmoid", "softmax", "tanh", "exponential", "softplus")
                modes = ["normal", "special", "wide"] + (["big"] if name in ("sigmoid", "tanh", "relu", "softsign", "hard_sigmoid") else []) + (["huge"] if name == "softmax" else [])
                elementwise(ch, lab, f, st, sym("a"), act_spec(name), "q", ctx_facts(), NS(lo), lambda a: a["n"], rel=2e-4 if approx else 1e-5, ab=1e-6, mkoracle=ActOracle, modes=modes)
                untouched(ch, lab, f, st, {sym("a")})
                if name == "softmax": overflow_free(ch, lab, f, st)
            guard(ch, lab, name, go)
def overflow_free(ch, lab, f, st):
    """softmax of inputs whose exponentials overflow: every exp argument of the summary stays <= 0"""
    chain = st.get(sym("a"))
    w = where(f)
    for n in (1, 2, 7, 9, 16, 17, 33, 40):
        o = ActOracle((SEED, "ovf", n), "huge")
        e = Ev(o, {sym("n"): n}, single=True)
        for i in range(n):
            v = e.mread(chain, 4 * i, "f32", {})
            if v != v or abs(v) > 1.001: ch.violate(lab + ": no overflow", w, "with n=%d inputs around 1000 give %r" % (n, v)); return
    ch.ok(lab + ": no overflow for large inputs", "summary agrees with the specification (identity testing)", w)

# ------------------------------------------------------------------ K04
def deriv_spec(name):
    y, g = el("act", q_), el("g", q_)
    if name == "sigmoid": d = F("f*", y, F("f-", fc(1), y))
    elif name == "tanh": d = F("f-", fc(1), F("f*", y, y))
    elif name == "softplus": d = F("f-", fc(1), fcall("exp", F("fneg", y)))
    elif name == "softsign":
        z = F("f-", fc(1), fcall("fabs", y)); d = F("f*", z, z)
    elif name == "relu": d = ite(fcmp("olt", fc(0), y), fc(1), fc(0))
    elif name == "hard_sigmoid": d = ite(band(fcmp("olt", fc(0), y), fcmp("olt", y, fc(1))), fc(0.2), fc(0))
    elif name == "exponential": d = y
    elif name in ("linear", "softmax"): d = fc(1)
    return F("f*", g, d)
class DerivOracle(ActOracle):
    act = None
    def __init__(self, seed, mode="normal"):
        ActOracle.__init__(self, seed, mode)
        rng = {"sigmoid": (0.001, 0.999), "tanh": (-0.999, 0.999), "softplus": (0.01, 5), "softsign": (-0.99, 0.99), "relu": None, "hard_sigmoid": None,
               "exponential": (0.01, 8), "linear": (-3, 3), "softmax": (0.001, 0.999)}[self.act]
        if mode in ("special", "zeros"):
            vals = {"relu": (0.0, 0.5, 1.0, 2.0, 0.0), "hard_sigmoid": (0.0, 1.0, 0.5, 0.1, 0.9)}.get(self.act)
            if vals: self.objmode[("sym", "act")] = lambda r, k: r.choice(vals); return
        if self.act == "relu": self.objmode[("sym", "act")] = lambda r, k: max(0.0, r.gauss(0, 1))
        elif self.act == "hard_sigmoid": self.objmode[("sym", "act")] = lambda r, k: min(1.0, max(0.0, r.uniform(-.3, 1.3)))
        else: self.objmode[("sym", "act")] = lambda r, k: r.uniform(*rng)
def K04():
    ch = Check("K04")
    ch.rule = ("the derivative routine the registry pairs with each activation is summarised for all lengths and alignments on four instruction sets; each gradient "
               "element must become its old value times f'(x) written in terms of f(x), once, with the activation array unmodified")
    ch.floor = 60
    parallel(ch, [(lemma_deriv, isa, name) for isa in isas() for name in ACTS], MODS)
    return ch.finish()
def lemma_deriv(ch, isa, name):
            mod = module(isa)
            lab = "%s derivative/%s" % (name, isa)
            def go():
                f = resolve_deriv(mod, name)
                ext = {sym("act"): pscale(n_, 4), sym("g"): pscale(n_, 4)}
                f, I, rv, st = run_fn(ch, isa, f.name, ("i:n", "p:act", "p:g"), [n_], bounds=ext, f=f, mod=mod, asgs=NS())
                cls = type("O", (DerivOracle,), dict(act=name))
                if name == "softmax":
                    untouched(ch, lab, f, st, {sym("g")}); return
                elementwise(ch, lab, f, st, sym("g"), deriv_spec(name), "q", ctx_facts(), NS(), lambda a: a["n"], rel=2e-4, mkoracle=cls)
                untouched(ch, lab, f, st, {sym("g")})
            guard(ch, lab, name, go)
def resolve_deriv(mod, name):
    a = resolve_fn(mod, "get_activation_func", name)
    g = fn(mod, "get_activation_derivative")
    I = Interp(mod, hooks={"get_activation_derivative_dynamic": lambda *x: mkptr(mk("dynsym"))})
    r, _ = I.run(g, [mkptr(mk("func", a.name))])
    r = conc_ptr(r)
    if isinstance(r, Ptr) and r.base.op == "func": return fn(mod, r.base.a[0])
    raise Anchor("no derivative for " + name)

# ------------------------------------------------------------------ K05 / K06
EPS = 1e-7
def clip01(x): return fcall("fmin", fcall("fmax", x, fc(EPS)), fc(1 - EPS))
def P_(i): return el("p", i)
def R_(i): return el("r", i)
def mean(body, k): return F("f/", mk_fsum(k, body, ZERO, n_), itof(n_))
def metric_spec(name):
    k = mk("lv", "k", ()); p, r = P_(A(k)), R_(A(k)); d = F("f-", p, r)
    if name in ("mean_squared_error", "mse"): return mean(F("f*", d, d), k)
    if name in ("mean_absolute_error", "mae"): return mean(fcall("fabs", d), k)
    if name in ("mean_absolute_percentage_error", "mape"):
        return F("f*", fc(100), mean(F("f/", fcall("fabs", d), fcall("fmax", fcall("fabs", r), fc(EPS))), k))
    c = clip01(p)
    if name == "binary_crossentropy":
        return F("fneg", mean(F("f+", F("f*", r, fcall("log", c)), F("f*", F("f-", fc(1), r), fcall("log", F("f-", fc(1), c)))), k))
    if name == "categorical_crossentropy": return F("fneg", mean(F("f*", r, fcall("log", c)), k))
    if name == "binary_accuracy":
        rr = fcall("round", fcall("fmin", fcall("fmax", r, fc(0)), fc(1)))
        return mean(ite(fcmp("oeq", rr, fcall("round", p)), fc(1), fc(0)), k)
    if name == "categorical_accuracy":
        return ite(eq0(psub(argmax("p"), argmax("r"))), fc(1), fc(0))
def argmax(arr):
    """index of the first maximum"""
    t, s, i = mk("lv", "t", ()), mk("phi", "mx", ("spec", arr), "float"), mk("phi", "ix", ("spec", arr), "int")
    x = el(arr, A(t))
    c = fcmp("olt", s, x)
    bvs, bd = close((t, s, i), (ite(c, x, s), ite(c, A(t), A(i))))
    return A(mk("rec", bvs, bd, (fc(-INF_), ZERO), n_, 1, ("float", "int")))
INF_ = float("inf")
METRICS = ("mean_squared_error", "mse", "mean_absolute_error", "mae", "mean_absolute_percentage_error", "mape", "categorical_crossentropy",
           "binary_crossentropy", "categorical_accuracy", "binary_accuracy")
class MetOracle(Oracle):
    name = ""
    def __init__(self, seed, mode="normal"):
        Oracle.__init__(self, seed, mode)
        p, r = ("sym", "p"), ("sym", "r")
        if "crossentropy" in self.name:
            if mode == "normal": self.objmode[p] = "unit"; self.objmode[r] = "unit"
            if mode == "special":
                self.objmode[p] = lambda g, k: g.choice((0.0, 1.0, 0.25, 0.5, 0.9)); self.objmode[r] = "onehot01"
            if mode == "wide": self.objmode[p] = lambda g, k: g.uniform(-0.5, 1.5); self.objmode[r] = "onehot01"
        if "accuracy" in self.name:
            ch = (0.0, 1.0, 0.2, 0.49, 0.51, 0.8, 0.5)
            if mode == "normal": self.objmode[p] = lambda g, k: g.uniform(0, 1); self.objmode[r] = lambda g, k: g.uniform(-.2, 1.2)
            if mode == "special": self.objmode[p] = self.objmode[r] = lambda g, k: g.choice(ch)
            if mode == "wide": self.objmode[p] = self.objmode[r] = lambda g, k: float(g.randint(-3, 3))
def K06():
    ch = Check("K06")
    ch.rule = "every metric reachable by name is summarised for all n and its return value compared with the documented statistic over all n outputs"
    ch.floor = 10
    parallel(ch, [(lemma_metric, isa, name) for isa in ("avx512", "sse") for name in METRICS], MODS)
    return ch.finish()
def lemma_metric(ch, isa, name):
            mod = module(isa)
            lab = "%s/%s" % (name, isa)
            def go():
                f = resolve_fn(mod, "get_metric_func", name)
                ext = {sym("p"): pscale(n_, 4), sym("r"): pscale(n_, 4)}
                facts = [psub(n_, ONE)]
                f, I, rv, st = run_fn(ch, isa, f.name, ("i:n", "p:p", "p:r"), facts, bounds=ext, f=f, mod=mod, asgs=NS(1))
                cls = type("O", (MetOracle,), dict(name=name))
                ks = "mape-negative-target" if name in ("mape", "mean_absolute_percentage_error") else None
                compare_val(ch, lab + ": value", rv, metric_spec(name), [dict(n=n) for n in (1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 33)], where=where(f), rel=1e-4, ab=1e-6, mkoracle=cls, reps=3)
                untouched(ch, lab, f, st, set())
            guard(ch, lab, name, go)
LOSSES = ("mean_squared_error", "mse", "mean_absolute_error", "mae", "mean_absolute_percentage_error", "mape", "categorical_crossentropy", "binary_crossentropy")
def loss_spec(name):
    p, r = P_(q_), R_(q_); d = F("f-", p, r); nf = itof(n_)
    sg = ite(fcmp("olt", p, r), fc(-1), fc(1))
    if name in ("mean_squared_error", "mse"): return F("f/", F("f*", fc(2), d), nf)
    if name in ("mean_absolute_error", "mae"): return F("f/", sg, nf)
    if name in ("mean_absolute_percentage_error", "mape"): return F("f/", F("f/", F("f*", fc(100), sg), fcall("fmax", fcall("fabs", r), fc(EPS))), nf)
    if name == "categorical_crossentropy": return d
    if name == "binary_crossentropy": return F("f/", d, nf)
class LossOracle(Oracle):
    pass
def K05():
    ch = Check("K05")
    ch.rule = ("every loss reachable by name is summarised for all n; the vector it writes is compared with the partial derivatives of the same-named metric "
               "(cross-entropies: with respect to the matching pre-activation)")
    ch.floor = 10
    parallel(ch, [(lemma_loss, isa, name) for isa in ("avx512", "sse") for name in LOSSES], MODS)
    return ch.finish()
def lemma_loss(ch, isa, name):
            mod = module(isa)
            lab = "%s/%s" % (name, isa)
            def go():
                f = resolve_fn(mod, "get_loss_func", name)
                ext = {sym(x): pscale(n_, 4) for x in "prg"}
                f, I, rv, st = run_fn(ch, isa, f.name, ("i:n", "p:p", "p:r", "p:g"), [n_], bounds=ext, f=f, mod=mod, asgs=NS())
                if name in ("mean_absolute_error", "mae", "mean_absolute_percentage_error", "mape"):
                    modes = ("normal", "wide")          # the derivative does not exist where prediction and target are equal
                else: modes = ("normal", "special", "wide")
                elementwise(ch, lab, f, st, sym("g"), loss_spec(name), "q", ctx_facts(), NS(), lambda a: a["n"], modes=modes)
                untouched(ch, lab, f, st, {sym("g")})
            guard(ch, lab, name, go)
