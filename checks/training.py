"""T01-T08: optimizers, epochs, callbacks, evaluation and logging"""
from network import *
from network import _ptrs
from omp import omp_jobs, OMODS
import math

# ------------------------------------------------------------------ layouts of the public settings structs
_PROBE2 = """
#include <stddef.h>
#include "optimizer_implementations.h"
#include "earlystopping.h"
#include "modelcheckpoint.h"
#include "logger.h"
const long verif_layout2[] = {
  sizeof(optimizer_properties_t), offsetof(optimizer_properties_t, batchsize), offsetof(optimizer_properties_t, shuffle), offsetof(optimizer_properties_t, metrics), offsetof(optimizer_properties_t, progress),
  offsetof(sgd_properties_t, learning_rate), offsetof(sgd_properties_t, decay), offsetof(sgd_properties_t, momentum), offsetof(sgd_properties_t, nesterov),
  offsetof(rmsprop_properties_t, learning_rate), offsetof(rmsprop_properties_t, rho), offsetof(rmsprop_properties_t, decay), offsetof(rmsprop_properties_t, momentum), offsetof(rmsprop_properties_t, nesterov),
  offsetof(adagrad_properties_t, learning_rate), offsetof(adagrad_properties_t, decay),
  offsetof(adam_properties_t, learning_rate), offsetof(adam_properties_t, beta_1), offsetof(adam_properties_t, beta_2), offsetof(adam_properties_t, weight_decay),
  offsetof(earlystopping_config, patience), offsetof(earlystopping_config, monitor_idx), offsetof(earlystopping_config, greater_is_better),
  offsetof(modelcheckpoint_config, filename), offsetof(modelcheckpoint_config, monitor_idx), offsetof(modelcheckpoint_config, greater_is_better), offsetof(modelcheckpoint_config, verbose),
  offsetof(logger_config, epoch_count), offsetof(logger_config, filename), offsetof(logger_config, no_stdout) };
void verif_callback_run( callback_t *c, optimizer_t *o, const float *r, bool v ) { callback_run( c, o, r, v ); }
void verif_callback_free( callback_t *c ) { callback_free( c ); }
void verif_run_epoch( optimizer_t *o, unsigned n, const float *x, const float *y ) { o->run_epoch( o, n, x, y ); }
"""
NAMES2 = ("op.size op.batchsize op.shuffle op.metrics op.progress sgd.lr sgd.decay sgd.momentum sgd.nesterov rms.lr rms.rho rms.decay rms.momentum rms.nesterov "
          "ada.lr ada.decay adam.lr adam.b1 adam.b2 adam.wd es.patience es.idx es.greater mc.filename mc.idx mc.greater mc.verbose lg.epoch lg.filename lg.no_stdout").split()
_src2 = None
def probe2():
    global _src2
    if _src2 is None:
        _src2 = os.path.join(build.tmpdir(), "verif_probe2.c")
        with open(_src2, "w") as f: f.write(_PROBE2)
    return _src2
def tmodule(isa="avx512", **kw):
    return module(isa, extra_src=(probe(), probe2()), **kw)
_lay2 = {}
def layout2(mod):
    if mod not in _lay2:
        d = dict(layout(mod))
        c = Interp(mod).const_chain("verif_layout2")
        if c is None: raise Anchor("cannot determine the layout of the settings")
        for i, n in enumerate(NAMES2):
            v = read(c, C(8 * i), "i64", Ctx()).const()
            if v is None: raise Anchor("layout of " + n)
            d[n] = v
        _lay2[mod] = d
    return _lay2[mod]
def struct(fields, base):
    ch = mk("minit", base)
    for off, tk, v in fields: ch = mk("mstore", ch, C(off), tk, v)
    return ch
def has_arity(mod, name, n): return name in mod.funcs and len(mod.funcs[name].args) == n

# ------------------------------------------------------------------ T01-T03: update rules
N_ = isym("n")
M_ = isym("m")
THETA = {sym("nn"): (sym("theta"), N_, "grad#"), sym("nn2"): (sym("theta2"), M_, "grad2#")}
def theta_of(nn):
    if isinstance(nn, Ptr) and nn.off is ZERO and nn.base in THETA: return THETA[nn.base]
    raise Unsupported("undetermined network " + show(nn))
def grad_hook(I, ev, st, ctx, key):
    """the batch gradient: element k is an unknown function of parameter k as it is now, of k and of the position in the epoch"""
    opt, n_train, X, Y, ip, g = ev.args
    _ptrs("optimizer_calc_batch_gradient", opt, ip, g)
    y = layout2(I.mod)
    th, n, G = theta_of(conc_ptr(I.load(st, mkptr(opt.base, padd(opt.off, C(y["o.nn"]))), "ptr", ctx)))
    i = I.load(st, ip, "i32", ctx)
    if i is None or not isinstance(i, P): raise Unsupported("undetermined position in the epoch")
    I.access("write", g, pscale(n, 4), 4, ctx, ev.inst, st)
    k = mk("lv", "k", key)
    body = fcall(G, rdm(st.get(th), ZERO, k), itof(A(k)), itof(i))
    bvs, bd = close((k,), (body,))
    st.d[g.base] = mseg(bvs, bd, st.get(g.base), g.off, n, 4, "f32")
    bs = I.load(st, mkptr(opt.base, padd(opt.off, C(y["o.batchsize"]))), "i32", ctx)
    if not isinstance(bs, P): raise Unsupported("undetermined batch size")
    rem = psub(n_train, i)
    I.store(st, ip, "i32", padd(i, ite(ge0(psub(rem, bs)), bs, rem)), ctx)
    return None
def update_hook(I, ev, st, ctx, key):
    nn, d = ev.args
    _ptrs("neuralnet_update", d)
    th, n, G = theta_of(nn)
    I.access("read", d, pscale(n, 4), 4, ctx, ev.inst, st)
    k = mk("lv", "k", key)
    body = F("f+", rdm(st.get(th), ZERO, k), rdm(st.get(d.base), d.off, k))
    bvs, bd = close((k,), (body,))
    st.d[th] = mseg(bvs, bd, st.get(th), ZERO, n, 4, "f32")
    return None
def getpar_hook(I, ev, st, ctx, key):
    nn, d = ev.args
    _ptrs("neuralnet_get_parameters", d)
    th, n, G = theta_of(nn)
    I.access("write", d, pscale(n, 4), 4, ctx, ev.inst, st)
    k = mk("lv", "k", key)
    bvs, bd = close((k,), (rdm(st.get(th), ZERO, k),))
    st.d[d.base] = mseg(bvs, bd, st.get(d.base), d.off, n, 4, "f32")
    return None
OPT_HOOKS = {"optimizer_calc_batch_gradient": (6, grad_hook), "neuralnet_update": (2, update_hook), "neuralnet_get_parameters": (2, getpar_hook),
             "neuralnet_total_n_parameters": (1, lambda I, ev, st, ctx, key: theta_of(ev.args[0])[1]), "optimizer_check_sanity": (1, lambda *a: None)}
OPTS = {
    # constructor: (fields of the settings struct, hyper-parameters)
    "SGD": [("sgd.lr", "lr"), ("sgd.decay", "decay"), ("sgd.momentum", "mom")],
    "RMSprop": [("rms.lr", "lr"), ("rms.rho", "rho"), ("rms.decay", "decay"), ("rms.momentum", "mom")],
    "adagrad": [("ada.lr", "lr"), ("ada.decay", "decay")],
    "adam": [("adam.lr", "lr"), ("adam.b1", "b1"), ("adam.b2", "b2"), ("adam.wd", "wd")],
}
NEST = {"SGD": "sgd.nesterov", "RMSprop": "rms.nesterov"}
FZ = {"zero": 0.0}
def opt_setup(mod, name, nest, mom0, dec0, bs=1, progress=True):
    y = layout2(mod)
    oc = struct([(y["op.batchsize"], "i32", C(bs)), (y["op.shuffle"], "i8", ZERO), (y["op.metrics"], "ptr", mkptr(sym("metrics"))), (y["op.progress"], "ptr", mkptr(mk("func", "progress#")) if progress else NULL)], sym("optconf"))
    fs = []
    for fld, h in OPTS[name]:
        v = sym(h)
        if h == "mom" and mom0: v = fc(0)
        if h in ("decay", "wd") and dec0: v = fc(0)
        fs.append((y[fld], "f32", v))
    if name in NEST: fs.append((y[NEST[name]], "i8", C(nest)))
    return {sym("optconf"): oc, sym("props"): struct(fs, sym("props"))}
def run_opt(ch, mod, name, nest, mom0, dec0, contracts=True, par=None, bs=1, ns=(2, 2), progress=True):
    init = opt_setup(mod, name, nest, mom0, dec0, bs, progress)
    hooks = {k: h for k, (n, h) in OPT_HOOKS.items() if has_arity(mod, k, n)}
    hooks["progress#"] = lambda *a: None
    if contracts: hooks.update(with_arity(VKERNELS, mod))
    if par: hooks.update(par.hooks())
    I = Interp(mod, hooks=hooks); I.unroll = 12
    if par: I.on_access = par
    I.initmem.update(init)
    facts = [psub(N_, ONE)]
    st = St({}, I.default_root)
    f = fn(mod, name + "_new")
    fr = fn(mod, "verif_run_epoch")
    ctx = Ctx(facts)
    I.positive = {sym("mom"), sym("decay"), sym("wd")}
    o, st = I.call(f, [P_("nn"), mkptr(sym("optconf")), mkptr(sym("props"))], st, ctx, ("new",))
    o = conc_ptr(o)
    if not isinstance(o, Ptr): raise Unsupported("the new optimizer is " + show(o))
    for e, n in enumerate(ns):
        _, st = I.call(fr, [o, C(n), P_("X"), P_("Y")], st, ctx, ("epoch", e))
    ch.functions.update(I.funcs_seen)
    return I, o, st
def hyper(i, rng):
    """hyper-parameter values"""
    return dict(lr=rng.uniform(.001, .5), decay=rng.uniform(.01, .9), mom=rng.uniform(.1, .95), rho=rng.uniform(.1, .95), b1=rng.uniform(.2, .95), b2=rng.uniform(.3, .99), wd=rng.uniform(.01, .3))
def ref_opt(name, n, hp, nest, mom0, dec0, bs, ns, theta, G="grad#"):
    lr = hp["lr"]
    mom = 0.0 if mom0 else hp["mom"]
    dec = 0.0 if dec0 else hp["decay"]
    wd = 0.0 if dec0 else hp["wd"]
    v = [0.0] * n; r = [0.0] * n; s = [0.0] * n; t = 0
    for ne in ns:
        for i in range(0, ne, bs):
            if name in ("SGD", "RMSprop"):
                if mom > 0:
                    v = [mom * x for x in v]
                    if nest: theta = [a + b for a, b in zip(theta, v)]
            g = [fcall_val(G, [theta[k], float(k), float(i)]) for k in range(n)]
            if name != "adam":
                if dec > 0: lr *= 1.0 / (1.0 + dec * t)
                t += 1
                if name == "SGD": d = [-lr * x for x in g]
                elif name == "RMSprop":
                    r = [hp["rho"] * a + (1 - hp["rho"]) * b * b for a, b in zip(r, g)]
                    d = [-lr * b / (1e-7 + math.sqrt(a)) for a, b in zip(r, g)]
                else:
                    r = [a + b * b for a, b in zip(r, g)]
                    d = [-lr * b / (1e-7 + math.sqrt(a)) for a, b in zip(r, g)]
                if name != "adagrad" and mom > 0: v = [a + b for a, b in zip(v, d)]
                u = v if (name != "adagrad" and mom > 0 and not nest) else d
                theta = [a + b for a, b in zip(theta, u)]
            else:
                t += 1
                b1, b2 = hp["b1"], hp["b2"]
                s = [b1 * a + (1 - b1) * b for a, b in zip(s, g)]
                r = [b2 * a + (1 - b2) * b * b for a, b in zip(r, g)]
                theta = [w - lr * (a / (1 - b1 ** t)) / (math.sqrt(b / (1 - b2 ** t)) + 1e-8) - (wd * w if wd > 0 else 0.0) for w, a, b in zip(theta, s, r)]
    return theta
class HOracle(Oracle):
    """oracle with given values for named float symbols"""
    def __init__(self, seed, mode, vals): Oracle.__init__(self, seed, mode); self.vals = vals
    def symf(self, name): return self.vals[name] if name in self.vals else Oracle.symf(self, name)
NLEN = (1, 2, 3, 7, 8, 9, 15, 16, 17, 23, 33, 64)
def opt_rule(ch, isa, name, nest, mom0, dec0, contracts=True, mod=None, par=None, tag="", bs=1, ns=(2, 2), progress=True):
    mod = mod or tmodule(isa)
    lab = "%s%s/momentum %s/%s %s/%s%s" % (name, "/nesterov" if nest else "", "0" if mom0 else ">0", "weight decay" if name == "adam" else "decay", "0" if dec0 else ">0", isa, "" if contracts else "/kernels expanded")
    if name in ("adagrad", "adam"): lab = lab.replace("/momentum %s" % ("0" if mom0 else ">0"), "")
    if (bs, ns) != (1, (2, 2)): lab += "/epochs of %s samples, batch size %d" % ("+".join(map(str, ns)), bs)
    if not progress: lab += "/no progress callback"
    lab += tag
    w = where(fn(mod, name + "_run_epoch") if name + "_run_epoch" in mod.funcs else fn(mod, name + "_new"))
    def go():
        I, o, st = run_opt(ch, mod, name, nest, mom0, dec0, contracts=contracts, par=par, bs=bs, ns=ns, progress=progress)
        chain = st.get(sym("theta"))
        for ai, n in enumerate(NLEN):
            rng = random.Random(repr((SEED, "hp", ai)))
            hp = hyper(ai, rng)
            oc = HOracle((SEED, lab, ai), "normal", hp)
            theta = [oc.load(("sym", "theta"), 4 * k, "f32") for k in range(n)]
            want = ref_opt(name, n, hp, nest, mom0, dec0, bs, ns, theta)
            e = Ev(oc, {sym("n"): n})
            for k in list(range(n)) + list(range(-17, 0)) + list(range(n, n + 17)):
                try: got = e.mread(chain, 4 * k, "f32", {})
                except Unknown as x: ch.undecided(lab, "cannot evaluate the summary: %s" % x, w); return
                wv = want[k] if 0 <= k < n else e.mread(mk("minit", sym("theta")), 4 * k, "f32", {})
                if not close_to(got, wv, 1e-4, 1e-6):
                    ch.violate(lab, w, "after epochs of %s samples in batches of %d with %d parameters and %s parameter %d is %.8g by the summary of the code; the update rule gives %.8g" % (
                        "+".join(map(str, ns)), bs, n, {h: round(hp[h], 4) for _, h in OPTS[name]}, k, got, wv)); return
        ch.ok(lab, "summary agrees with the specification (identity testing)", w)
    guard(ch, lab, name, go)
TMODS = [lambda isa=isa: tmodule(isa) for isa in ISAS]
SCEN = [(4, (1, 1, 1), True), (2, (5, 3), True), (4, (6, 2, 4), False), (32, (3, 40), True), (1, (3, 1, 2), False)]
def opt_check(pid, names, kernels):
    ch = Check(pid); ch.floor = 8
    ch.rule = ("the constructor and two or three epochs (several batch sizes, partial batches, different sample counts) are summarised for any number of parameters with unknown hyper-parameters, an unknown gradient that depends on the current parameters, and the optimizer's own "
               "state carried along; the parameters after the four steps are compared with the documented recurrence; kernels enter by contract, and their bodies are checked against the contracts here too")
    jobs = []
    for nm in names:
        for isa in ISAS:
            for nest in ((0, 1) if nm in NEST else (0,)):
                for mom0 in ((0, 1) if nm in NEST else (1,)):
                    for dec0 in (0, 1):
                        jobs.append((opt_rule, isa, nm, nest, mom0, dec0))
                        if isa == "sse": jobs += [(opt_rule, isa, nm, nest, mom0, dec0, True, None, None, "", b, ns, pr) for b, ns, pr in SCEN]
    jobs += [(lemma_vec, isa, k) for isa in ISAS for k in kernels]
    jobs += omp_jobs(names)
    parallel(ch, jobs, TMODS + KM + OMODS)
    return ch
from kernels import lemma_vec
def T01(): return opt_check("T01", ["SGD"], ["vector_scale", "vector_accumulate"]).finish()
def T02(): return opt_check("T02", ["RMSprop", "adagrad"], ["vector_scale", "vector_accumulate", "vector_square_elements", "vector_saxpby", "vector_saxpy"]).finish()
def T03(): return opt_check("T03", ["adam"], ["vector_saxpy"]).finish()

# ------------------------------------------------------------------ T04: samples of an epoch
def bp_hook(net, log=None):
    """a sample's gradient: element k is an unknown function of k, of every element of the input row and of every element of the target row"""
    def h(I, ev, st, ctx, key):
        nn, x, t, g = ev.args
        _ptrs("neuralnet_backpropagation", x, t, g)
        if not (isinstance(nn, Ptr) and nn.base is sym("nn") and nn.off is ZERO): raise Unsupported("backpropagation with an undetermined network")
        n0, nL, np = net.d[0], net.d[net.L], net.nparam()
        I.access("read", x, pscale(n0, 4), 4, ctx, ev.inst, st); I.access("read", t, pscale(nL, 4), 4, ctx, ev.inst, st)
        I.access("write", g, pscale(np, 4), 4, ctx, ev.inst, st)
        if log is not None: log.append((x, t, ctx, st.copy()))
        k, j = mk("lv", "k", key), mk("lv", "j", key)
        s = mk_fsum(j, F("f*", fcall("h#", itof(A(j))), rdm(st.get(x.base), x.off, j)), ZERO, n0)
        r = mk_fsum(j, F("f*", fcall("h2#", itof(A(j))), rdm(st.get(t.base), t.off, j)), ZERO, nL)
        body = fcall("bp#", itof(A(k)), s, r)
        bvs, bd = close((k,), (body,))
        st.d[g.base] = mseg(bvs, bd, st.get(g.base), g.off, np, 4, "f32")
        return None
    return h
def bp_ref(o, asg, L, row):
    d0, dL = asg["d0"], asg["d%d" % L]
    np = sum((asg["d%d" % l] + 1) * asg["d%d" % (l + 1)] for l in range(L))
    s = sum(fcall_val("h#", [float(j)]) * o.load(("sym", "X"), 4 * (row * d0 + j), "f32") for j in range(d0))
    r = sum(fcall_val("h2#", [float(j)]) * o.load(("sym", "Y"), 4 * (row * dL + j), "f32") for j in range(dL))
    return [fcall_val("bp#", [float(k), s, r]) for k in range(np)]
def batch_grad_spec(L):
    asgs = []
    for i, wd in enumerate(widths(L)):
        r = random.Random(repr((SEED, i)))
        n = r.choice((1, 2, 5, 9, 17))
        asgs.append({**wd, "N": n, "bs": r.choice((1, 2, 3, 8, 40)), "pos": r.randrange(n)})
        asgs.append({**wd, "N": 7, "bs": r.choice((3, 7, 8)), "pos": r.choice((0, 3, 6))})
    class PO(Oracle):
        def int_(self, key, off, tk):
            if key == ("sym", "pivot"): return random.Random(repr((self.seed, "pv", off))).randrange(40)
            return Oracle.int_(self, key, off, tk)
    def ref(o, a):
        b = min(a["bs"], a["N"] - a["pos"])
        acc = None
        for j in range(b):
            g = bp_ref(o, a, L, o.load(("sym", "pivot"), 4 * (a["pos"] + j), "i32"))
            acc = g if acc is None else [p + q for p, q in zip(acc, g)]
        return [v / b for v in acc]
    return asgs, ref, PO
def t04_batch(ch, isa, L, contracts=True):
    mod = tmodule(isa)
    lab = "optimizer_calc_batch_gradient/%d layers/%s%s" % (L, isa, "" if contracts else "/kernels expanded")
    y = layout2(mod)
    N, bs, pos = isym("N"), isym("bs"), isym("pos")
    def go():
        net = Net(mod, L)
        o = struct([(y["o.nn"], "ptr", P_("nn")), (y["o.batchsize"], "i32", bs), (y["o.pivot"], "ptr", P_("pivot")), (y["o.metrics"], "ptr", P_("metrics"))], sym("opt"))
        hooks = {"neuralnet_backpropagation": bp_hook(net)}
        if contracts: hooks.update(VKERNELS)
        f, I, rv, st = run_net(ch, net, "optimizer_calc_batch_gradient", [P_("opt"), N, P_("X"), P_("Y"), P_("ip"), P_("bg")], hooks=hooks,
                               facts=[psub(bs, ONE), pos, psub(psub(N, pos), ONE)], init={sym("opt"): o, sym("ip"): mk("mstore", mk("minit", sym("ip")), ZERO, "i32", pos)})
        w = where(f)
        asgs, ref, PO = batch_grad_spec(L)
        mem_is(ch, lab + ": mean gradient", st, sym("bg"), ref, asgs, w, "batch gradient", mko=PO)
        got = read(st.get(sym("ip")), ZERO, "i32", Ctx(net.facts))
        bad = None
        for a in asgs:
            try: v = Ev(PO(1), envs(a)).ev(got)
            except Unknown as x: ch.undecided(lab + ": position", x, w); break
            if v != a["pos"] + min(a["bs"], a["N"] - a["pos"]): ch.violate(lab + ": position", w, "with %s the position becomes %s" % (a, v)); break
        else: ch.ok(lab + ": position advances by the batch", "summary agrees with the specification (identity testing)", w)
        preserved(ch, lab + ": only gradient and position are written", I, st, {sym("bg"), sym("ip")}, w)
    guard(ch, lab, "optimizer_calc_batch_gradient", go)
class DrawInts(Oracle):
    """each outcome of rand()"""
    def int_(self, key, off, tk):
        if key == ("sym", "RND"): return random.Random(repr((self.seed, "rnd", off))).choice((0, 1, 2, 3, 5, 6, 7, 11, 2147483647, 2147483646)) if self.seed[-1] % 3 == 0 else random.Random(repr((self.seed, "rnd", off))).randint(0, 2147483647)
        return Oracle.int_(self, key, off, tk)
SEQS = [(1,), (2,), (5, 5), (4, 4, 4), (5, 3, 5), (3, 6), (7, 2, 2), (6,)]
def t04_epochs(ch, name, shuffle, batch):
    """which rows each step of a sequence of epochs uses"""
    mod = tmodule("sse")
    y = layout2(mod)
    w = where(fn(mod, "optimizer_run_epoch"))
    for seq in SEQS:
        lab = "%s/%s/batch %d/epochs of %s samples" % (name, "shuffled" if shuffle else "in order", batch, ",".join(map(str, seq)))
        def go():
            net = Net(mod, 1)
            log, sites = [], {}
            cnt = [0]
            def rnd(I, ev, st, ctx, key):
                cnt[0] += 1
                return wrap(mk("ld", sym("RND"), C(4 * cnt[0]), "i32"), "i32")
            steps = []
            def upd(I, ev, st, ctx, key): steps.append(len(log)); return None
            hooks = {"neuralnet_backpropagation": bp_hook(net, log), "rand": rnd, "evaluate": lambda *a: None, "progress#": lambda *a: None, "neuralnet_get_parameters": lambda *a: None,
                     "time": lambda *a: ZERO, "srand": lambda *a: None, "vector_accumulate_unaligned": lambda *a: None, "neuralnet_update": upd}
            for k in VKERNELS: hooks[k] = lambda *a: None
            I = net.interp(40, with_arity(hooks, mod))
            I.initmem.update(opt_setup(mod, name, 0, 1, 1))
            oc = I.initmem[sym("optconf")]
            oc = mk("mstore", oc, C(y["op.batchsize"]), "i32", C(batch)); oc = mk("mstore", oc, C(y["op.shuffle"]), "i8", C(shuffle))
            I.initmem[sym("optconf")] = oc
            I.initmem[sym("metrics")] = mk("mstore", mk("minit", sym("metrics")), ZERO, "ptr", NULL)
            ctx = Ctx(net.facts)
            st = St({}, I.default_root)
            o, st = I.call(fn(mod, name + "_new"), [P_("nn"), mkptr(sym("optconf")), mkptr(sym("props"))], st, ctx, ("new",))
            o = conc_ptr(o)
            if not isinstance(o, Ptr): raise Unsupported("the new optimizer is " + show(o))
            marks = []
            for e, n in enumerate(seq):
                a0 = len(log); s0 = len(steps)
                rv, st = I.call(fn(mod, "optimizer_run_epoch"), [o, C(n), P_("X"), P_("Y"), ZERO, NULL, NULL, P_("results")], st, ctx, ("epoch", e))
                marks.append((a0, len(log), sorted(set(x - a0 for x in steps[s0:]) | {0})))
            ch.functions.update(I.funcs_seen)
            trials = 1 if not shuffle else 40 if TIER == "quick" else 200
            for t in range(trials):
                ov = DrawInts((SEED, "t04", t))
                e = Ev(ov, {sym("d0"): 3, sym("d1"): 2})
                orders = []
                for (a0, a1, bnd), n in zip(marks, seq):
                    rows = []
                    for x, tg, _, s in log[a0:a1]:
                        if x.base is not sym("X") or tg.base is not sym("Y"): ch.violate(lab, w, "backpropagation is given %s and %s" % (show(x), show(tg))); return
                        try: xo, to = e.ev(x.off), e.ev(tg.off)
                        except Unknown as q: ch.undecided(lab, "row: %s" % q, w); return
                        except OutOfSpec as q: ch.violate(lab, w, str(q)); return
                        if xo * 2 != to * 3: ch.violate(lab, w, "an input at byte %d of X is paired with the target at byte %d of Y (3 inputs, 2 outputs)" % (xo, to)); return
                        if xo % 12: ch.violate(lab, w, "an input starts at byte %d of X, rows have 12 bytes" % xo); return
                        rows.append(xo // 12)
                    if sorted(rows) != list(range(n)):
                        ch.violate(lab, w, "an epoch of %d samples uses the rows %s" % (n, rows)); return
                    if not shuffle and rows != list(range(n)):
                        ch.violate(lab, w, "without shuffling an epoch of %d samples uses the rows in the order %s" % (n, rows)); return
                    want = sorted({min(k, n) for k in range(0, n + batch, batch)})
                    if bnd != want: ch.violate(lab, w, "the updates of an epoch of %d samples happen after %s samples, batches of %d give %s" % (n, bnd[1:], batch, want[1:])); return
            ch.ok(lab, "rows of the summary are a permutation in every sampled outcome of rand()" if shuffle else "rows of the summary are 0..n-1 in order", w)
        guard(ch, lab, "optimizer_run_epoch", go)
def T04():
    ch = Check("T04"); ch.floor = 20
    ch.rule = ("the batch gradient is summarised for any sample count, batch size, position and sample order (backpropagation an unknown function of the parameter index and of every element of its input and target row) and "
               "compared with the mean over exactly the batch's rows; sequences of epochs of each optimizer are followed with every random draw an unknown, and the rows used between updates must be the epoch's rows, each once")
    jobs = [(t04_batch, isa, L) for isa in ("avx512", "sse") for L in (1, 2, 3)] + [(t04_batch, isa, 1, False) for isa in ISAS]
    for nm in OPTS:
        for b in (1, 2, 3, 4, 9): jobs += [(t04_epochs, nm, s, b) for s in (0, 1)]
    jobs += [(lemma_vec, isa, k) for isa in ISAS for k in ("vector_accumulate_unaligned", "vector_divide_by_scalar")] + omp_jobs(["gradient"])
    parallel(ch, jobs, TMODS + KM + OMODS)
    return ch.finish()

# ------------------------------------------------------------------ T06: callbacks
def metrics_list(m):
    c = mk("minit", sym("metrics"))
    for i in range(m): c = mk("mstore", c, C(8 * i), "ptr", mkptr(mk("func", "metric#%d" % i)))
    return mk("mstore", c, C(8 * m), "ptr", NULL)
def opt_struct(y, m, nn="nn"):
    return struct([(y["o.nn"], "ptr", P_(nn)), (y["o.batchsize"], "i32", ONE), (y["o.metrics"], "ptr", P_("metrics"))], sym("opt"))
def cb_new(I, mod, y, kind, cfg, st, ctx, tag):
    """create a callback; its settings are gone afterwards (they are a compound literal of the caller's block)"""
    base = sym("cfg" + tag)
    I.initmem[base] = struct(cfg, base)
    o, st = I.call(fn(mod, kind + "_new"), [mkptr(base)], st, ctx, ("new", tag))
    o = conc_ptr(o)
    if not isinstance(o, Ptr): raise Unsupported("the new callback is " + show(o))
    st.d[base] = mk("mundef", base)
    return o, st
SAVED = sym("saved#")
def save_hook(I, ev, st, ctx, key):
    """counts saves of the network in a virtual cell; the cell's offset is the epoch"""
    nn = ev.args[0]
    tag = I.save_tag
    c = I.load(st, mkptr(SAVED, C(8 * tag)), "i32", ctx)
    I.store(st, mkptr(SAVED, C(8 * tag)), "i32", padd(c, ONE), ctx)
    I.save_args.append((tag, list(ev.args), ctx))
    return None
CBK = {"earlystopping": ("es.idx", "es.greater"), "modelcheckpoint": ("mc.idx", "mc.greater")}
def cb_cfg(y, kind, idx, greater, patience=None):
    if kind == "earlystopping": return [(y["es.patience"], "i32", patience), (y["es.idx"], "i32", C(idx)), (y["es.greater"], "i8", C(greater))]
    return [(y["mc.filename"], "ptr", mkptr(sym("fname"))), (y["mc.idx"], "i32", C(idx)), (y["mc.greater"], "i8", C(greater)), (y["mc.verbose"], "i8", C(greater))]
def cb_scores(rng, E):
    m = rng.randrange(5)
    if m == 0: return [rng.gauss(0, 1) for _ in range(E)]
    if m == 1: return [rng.choice((0.0, 0.5, 1.0, -1.0)) for _ in range(E)]
    if m == 2: return sorted((rng.gauss(0, 1) for _ in range(E)), reverse=rng.random() < .5)
    if m == 3: return [rng.choice((0.0, 1.0)) for _ in range(E)]
    return [rng.gauss(0, 1) * 10 ** rng.randint(-30, 30) for _ in range(E)]
class ScoreOracle(Oracle):
    def __init__(self, seed, scores, col): Oracle.__init__(self, seed); self.scores, self.col = scores, col
    def load(self, key, off, tk):
        if key[0] == "sym" and str(key[1]).startswith("res"):
            e = int(str(key[1])[3:])
            if off == 4 * self.col: return self.scores[e]
            if off < 0 or off >= 16: raise OutOfSpec("reads epoch result %d" % (off // 4))
            return random.Random(repr((self.seed, key, off))).gauss(0, 1)
        return Oracle.load(self, key, off, tk)
def t06_case(ch, kind, greater, idx, valid):
    mod = tmodule("sse")
    y = layout2(mod)
    M, E = 2, 6
    w = where(fn(mod, kind + "_callback_run") if kind + "_callback_run" in mod.funcs else fn(mod, kind + "_new"))
    lab = "%s/%s is better/monitor %s/%s validation" % (kind, "greater" if greater else "smaller", idx if idx >= 0 else "default", "with" if valid else "without")
    pat = isym("patience")
    col = idx if idx >= 0 else M if valid else 0
    def go():
        I = Interp(mod, hooks={"neuralnet_save": save_hook}); I.unroll = 8
        I.save_args = []
        I.initmem[sym("metrics")] = metrics_list(M)
        I.initmem[sym("opt")] = opt_struct(y, M)
        I.initmem[SAVED] = mk("mfill", mk("minit", SAVED), ZERO, C(8 * E), ZERO)
        ctx = Ctx([pat])
        st = St({}, I.default_root)
        o, st = cb_new(I, mod, y, kind, cb_cfg(y, kind, idx, greater, pat), st, ctx, "a")
        flags = []
        for e in range(E):
            I.save_tag = e
            _, st = I.call(fn(mod, "verif_callback_run"), [o, P_("opt"), P_("res%d" % e), bconst(bool(valid))], st, ctx, ("run", e))
            if kind == "earlystopping":
                r, _ = I.call(fn(mod, "earlystopping_do_stop"), [o], st.copy(), ctx, ("stop", e))
                flags.append(r)
        ch.functions.update(I.funcs_seen)
        if kind == "modelcheckpoint":
            for tag, args, c in I.save_args:
                if not (isinstance(args[0], Ptr) and args[0].base is sym("nn") and args[0].off is ZERO): ch.violate(lab + ": network", w, "saves %s instead of the optimizer's network" % show(args[0])); return
        for t in range(60 if TIER == "quick" else 400):
            rng = random.Random(repr((SEED, lab, t)))
            sc = cb_scores(rng, E)
            p = rng.randrange(5)
            ev = Ev(ScoreOracle((SEED, t), sc, col), {sym("patience"): p})
            best, since, flag = None, 0, False
            for e in range(E):
                better = best is None or (sc[e] > best if greater else sc[e] < best)
                if better: best = sc[e]; since = 0
                else: since += 1
                if since > p: flag = True
                try:
                    if kind == "modelcheckpoint":
                        got = ev.ev(read(st.get(SAVED), C(8 * e), "i32", Ctx()))
                        if got != int(better): ch.violate(lab, w, "scores %s: the network is saved %d times in epoch %d, expected %d" % (["%.4g" % s for s in sc], got, e, int(better))); return
                    else:
                        got = bool(ev.ev(flags[e]) if not isinstance(flags[e], bool) else flags[e])
                        if got != flag: ch.violate(lab, w, "scores %s, patience %d: the flag is %s after epoch %d, expected %s" % (["%.4g" % s for s in sc], p, got, e, flag)); return
                except Unknown as q: ch.undecided(lab, "cannot evaluate the summary: %s" % q, w); return
                except OutOfSpec as q: ch.violate(lab, w, str(q)); return
        ch.ok(lab, "summary of six epochs agrees with the definition (identity testing over score orders)", w)
    guard(ch, lab, kind, go)
def T06():
    ch = Check("T06"); ch.floor = 8
    ch.rule = ("constructor and six consecutive epochs of each callback are summarised with every score and the patience unknown (settings discarded after construction, saves counted in a virtual cell); flag and saves "
               "after every epoch are compared with the definition for score sequences of every kind of order, ties and magnitude")
    jobs = [(t06_case, k, g, i, v) for k in CBK for g in (0, 1) for i, v in ((-1, 0), (-1, 1), (0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (3, 1))]
    jobs.append((t06_stop_null,))
    parallel(ch, jobs, [lambda: tmodule("sse")])
    return ch.finish()
def t06_stop_null(ch):
    mod = tmodule("sse")
    if "earlystopping_do_stop" not in mod.funcs: return
    def go():
        I = Interp(mod)
        r, _ = I.run(fn(mod, "earlystopping_do_stop"), [NULL])
        v = Ev(Oracle(1)).ev(r)
        if v: ch.violate("no early stopping object", where(fn(mod, "earlystopping_do_stop")), "asks to stop")
        else: ch.ok("no early stopping object: never stops", "summary is false")
    guard(ch, "earlystopping_do_stop", "earlystopping_do_stop", go)

# ------------------------------------------------------------------ T07: evaluation
def metric_hook(j):
    def h(I, ev, st, ctx, key):
        n, p, t = ev.args
        _ptrs("metric", p, t)
        I.access("read", p, pscale(n, 4), 4, ctx, ev.inst, st); I.access("read", t, pscale(n, 4), 4, ctx, ev.inst, st)
        a = mk("lv", "j", key)
        s = mk_fsum(a, F("f*", fcall("h#", itof(A(a))), rdm(st.get(p.base), p.off, a)), ZERO, n)
        r = mk_fsum(a, F("f*", fcall("h2#", itof(A(a))), rdm(st.get(t.base), t.off, a)), ZERO, n)
        return fcall("metric#%d" % j, s, r, itof(n))
    return h
def metric_ref(o, asg, L, j, row):
    dL = asg["d%d" % L]
    p = pred_ref(o, asg, L, row)
    s = sum(fcall_val("h#", [float(k)]) * v for k, v in enumerate(p))
    r = sum(fcall_val("h2#", [float(k)]) * o.load(("sym", "Y"), 4 * (row * dL + k), "f32") for k in range(dL))
    return fcall_val("metric#%d" % j, [s, r, float(dL)])
def t07_evaluate(ch, isa, L, M):
    mod = tmodule(isa)
    lab = "evaluate/%d metrics/%d layers/%s" % (M, L, isa)
    N = isym("N")
    def go():
        net = Net(mod, L)
        hooks = {"neuralnet_predict": predict_hook(net)}
        for j in range(M): hooks["metric#%d" % j] = metric_hook(j)
        f, I, rv, st = run_net(ch, net, "evaluate", [P_("nn"), N, P_("X"), P_("Y"), P_("metrics"), P_("results")], hooks=hooks, facts=[psub(N, ONE)], init={sym("metrics"): metrics_list(M)})
        w = where(f)
        asgs = [a for a in batch_asgs(L) if a["N"] > 0]
        mem_is(ch, lab + ": results", st, sym("results"), lambda o, a: [sum(metric_ref(o, a, L, j, i) for i in range(a["N"])) / a["N"] for j in range(M)], asgs, w, "evaluation")
        preserved(ch, lab + ": only the results are written", I, st, {sym("results")}, w)
    guard(ch, lab, "evaluate", go)
def t07_epoch(ch, M, case):
    mod = tmodule("sse")
    y = layout2(mod)
    w = where(fn(mod, "optimizer_run_epoch"))
    nv, vx, vy = {"given": (isym("NV"), P_("VX"), P_("VY")), "none": (ZERO, NULL, NULL), "no rows": (ZERO, P_("VX"), P_("VY")), "no inputs": (isym("NV"), NULL, P_("VY")), "no targets": (isym("NV"), P_("VX"), NULL)}[case]
    lab = "optimizer_run_epoch/%d metrics/validation: %s" % (M, case)
    VER = sym("version#")
    def ep(I, ev, st, ctx, key):
        if not (ev.args[1] is isym("NT") and ev.args[2] is P_("X") and ev.args[3] is P_("Y")): I.bad.append("trains on %s samples of %s, %s" % tuple(show(a) for a in ev.args[1:4]))
        I.store(st, mkptr(VER), "i32", padd(I.load(st, mkptr(VER), "i32", ctx), ONE), ctx)
    def evl(I, ev, st, ctx, key):
        nn, n, X, Y, ms, res = ev.args
        _ptrs("evaluate", nn, X, Y, ms, res)
        if nn is not P_("nn") or ms is not P_("metrics"): I.bad.append("evaluates %s with the metrics %s" % (show(nn), show(ms)))
        for j in range(M):
            v = fcall("ev#", itof(C(j)), mk("fc", {sym("X"): 1.0, sym("VX"): 2.0}.get(X.base, 9.0)) if False else fc({sym("X"): 1.0, sym("VX"): 2.0}.get(X.base, 9.0)), fc({sym("Y"): 1.0, sym("VY"): 2.0}.get(Y.base, 9.0)), itof(n), itof(I.load(st, mkptr(VER), "i32", ctx)))
            I.store(st, mkptr(res.base, padd(res.off, C(4 * j))), "f32", v, ctx)
    def go():
        net = Net(mod, 1)
        I = net.interp(8, with_arity({"epoch#": ep, "evaluate": evl, "prepare_shuffle_pivot": lambda *a: TRUE, "fisher_yates_shuffle": lambda *a: None, "time": lambda *a: ZERO, "srand": lambda *a: None}, mod))
        I.bad = []
        I.initmem[VER] = mk("mfill", mk("minit", VER), ZERO, C(8), ZERO)
        I.initmem[sym("metrics")] = metrics_list(M)
        I.initmem[sym("opt")] = struct([(y["o.nn"], "ptr", P_("nn")), (y["o.batchsize"], "i32", ONE), (y["o.shuffle"], "i8", ZERO), (y["o.metrics"], "ptr", P_("metrics")), (y["o.run_epoch"], "ptr", mkptr(mk("func", "epoch#"))), (y["o.pivot"], "ptr", NULL)] +
                                       ([(y["o.n_pivot"], "i32", ZERO)] if "o.n_pivot" in y else []), sym("opt"))
        rv, st = I.run(fn(mod, "optimizer_run_epoch"), [P_("opt"), isym("NT"), P_("X"), P_("Y"), nv, vx, vy, P_("results")], Ctx(net.facts + [psub(isym("NT"), ONE), psub(isym("NV"), ONE)]))
        ch.functions.update(I.funcs_seen)
        if I.bad: ch.violate(lab, w, I.bad[0]); return
        for asg in (dict(NT=4, NV=3), dict(NT=1, NV=1), dict(NT=9, NV=20)):
            o = Oracle((SEED, "t07e"))
            e = Ev(o, envs(asg))
            want = [fcall_val("ev#", [float(j), 1.0, 1.0, float(asg["NT"]), 1.0]) for j in range(M)]
            if case == "given": want += [fcall_val("ev#", [float(j), 2.0, 2.0, float(asg["NV"]), 1.0]) for j in range(M)]
            for k in range(-3, len(want) + 5):
                got = e.mread(st.get(sym("results")), 4 * k, "f32", {})
                wv = want[k] if 0 <= k < len(want) else o.load(("sym", "results"), 4 * k, "f32")
                if not close_to(got, wv): ch.violate(lab, w, "result %d is %r by the summary of the code; expected the %s" % (k, got, "training metric %d" % k if 0 <= k < M else "validation metric %d" % (k - M) if 0 <= k < len(want) else "previous content")); return
        ch.ok(lab, "summary agrees with the specification (identity testing)", w)
    def safe():
        try: go()
        except Unknown as x: ch.undecided(lab, "cannot evaluate the summary: %s" % x, w)
        except OutOfSpec as x: ch.violate(lab, w, str(x))
    guard(ch, lab, "optimizer_run_epoch", safe)
def T07():
    ch = Check("T07"); ch.floor = 8
    ch.rule = ("evaluation is summarised for any number of samples and any widths with predictions and metrics unknown functions of every element of their rows; the results are compared with the means per metric and anything else "
               "must stay untouched; the order of training, training metrics and validation metrics of an epoch is read off the summary of optimizer_run_epoch")
    jobs = [(t07_evaluate, isa, L, M) for isa in ("avx512", "sse") for L in (1, 2) for M in (0, 1, 2, 3)]
    jobs += [(t07_epoch, M, c) for M in (1, 2) for c in ("given", "none", "no rows", "no inputs", "no targets")] + omp_jobs(["evaluate"])
    parallel(ch, jobs, TMODS + OMODS)
    return ch.finish()

# ------------------------------------------------------------------ T05: instances do not influence each other
import effects
def fresh_globals(I, mod):
    """every mutable global holds its initial value: the analysed history starts at process start"""
    for n, g in mod.globals.items():
        b = mk("global", n)
        if g.const or g.init is None or n in I.constglob: continue
        v = g.init
        if v.kind == "zero" or v.kind == "null" or (v.kind in ("int", "fp") and not v.v): I.initmem[b] = mk("mfill", mk("minit", b), ZERO, C(max(1, g.ty.size)), ZERO)
        else:
            try: c = I.const_chain(n)
            except Exception: c = None
            if c is not None: I.initmem[b] = c
            elif v.kind == "agg" and g.ty.k == "struct" and g.ty.offs:
                ch = mk("mfill", mk("minit", b), ZERO, C(g.ty.size), ZERO)
                try:
                    for off, f in zip(g.ty.offs, v.ops): ch = mk("mstore", ch, C(off), tkey(f.ty), I.cval(f))
                    I.initmem[b] = ch
                except Exception: pass
class Freed:
    """records released objects; any later access to one is reported"""
    def __init__(self): self.freed = {}; self.bad = []
    def hook(self, I, ev, st, ctx, key):
        p = conc_ptr(ev.args[0])
        if isinstance(p, Ptr) and p.base.op in ("obj", "alloca", "global"):
            if p.base in self.freed: self.bad.append("releases %s twice" % show(p, 3))
            self.freed[p.base] = key
        return None
    def __call__(self, a):
        if a.base in self.freed: self.bad.append("%s of released memory at %s:%s (%s)" % (a.kind, rel(a.inst.file) if a.inst.file else "?", a.inst.line, a.fn))
def t05_pair(ch, k1, k2):
    mod = tmodule("sse")
    y = layout2(mod)
    lab = "two optimizers/%s next to %s" % (k1, k2)
    w = where(fn(mod, k1 + "_new"))
    def go():
        hooks = {k: h for k, (n, h) in OPT_HOOKS.items() if has_arity(mod, k, n)}
        hooks.pop("optimizer_check_sanity", None)
        hooks["progress#"] = lambda *a: None
        hooks.update(with_arity(VKERNELS, mod))
        fr = Freed()
        hooks["free"] = fr.hook; hooks["_mm_free"] = fr.hook
        I = Interp(mod, hooks=hooks); I.unroll = 12
        I.on_access = fr
        fresh_globals(I, mod)
        I.initmem.update({sym("metrics"): metrics_list(1)})
        for nn in ("nn", "nn2"): I.initmem[sym(nn)] = mk("mstore", mk("minit", sym(nn)), C(y["nn.loss"]), "ptr", mkptr(mk("func", "loss#")))
        I.positive = {sym(h + t) for h in ("mom", "decay", "wd") for t in ("", "2", "3")}
        facts = [psub(N_, ONE), psub(M_, ONE)]
        ctx = Ctx(facts)
        st = St({}, I.default_root)
        def new(kind, nn, t, bs):
            nonlocal st
            oc, pr = sym("optconf" + t), sym("props" + t)
            I.initmem[oc] = struct([(y["op.batchsize"], "i32", C(bs)), (y["op.shuffle"], "i8", ZERO), (y["op.metrics"], "ptr", P_("metrics")), (y["op.progress"], "ptr", mkptr(mk("func", "progress#")))], oc)
            fs = [(y[fld], "f32", sym(h + t)) for fld, h in OPTS[kind]]
            if kind in NEST: fs.append((y[NEST[kind]], "i8", ZERO))
            I.initmem[pr] = struct(fs, pr)
            o, st = I.call(fn(mod, kind + "_new"), [P_(nn), mkptr(oc), mkptr(pr)], st, ctx, ("new", t))
            o = conc_ptr(o)
            if not isinstance(o, Ptr): raise Unsupported("the new optimizer is " + show(o))
            st.d[oc] = mk("mundef", oc); st.d[pr] = mk("mundef", pr)
            return o
        E = [0]
        def epoch(o, n):
            nonlocal st
            E[0] += 1
            _, st = I.call(fn(mod, "verif_run_epoch"), [o, C(n), P_("X"), P_("Y")], st, ctx, ("epoch", E[0]))
        o1 = new(k1, "nn", "", 1)
        epoch(o1, 2)
        o2 = new(k2, "nn2", "2", 2)
        if o1.base is o2.base: ch.violate(lab, w, "both optimizers are the same object %s" % show(o1)); return
        epoch(o2, 5); epoch(o1, 1); epoch(o2, 1)
        if "verif_optimizer_free" in mod.funcs:
            _, st = I.call(fn(mod, "verif_optimizer_free"), [o2], st, ctx, ("free", 2))
            if fr.bad: ch.violate(lab + ": release", w, "freeing an optimizer " + fr.bad[0]); return
        epoch(o1, 2)
        o3 = new(k2, "nn2", "3", 1)
        fr.freed.pop(o3.base, None)
        epoch(o3, 2)
        ch.functions.update(I.funcs_seen)
        if fr.bad: ch.violate(lab + ": release", w, "after the other optimizer was freed: " + fr.bad[0]); return
        for who, th, size, kind, ns, bs, t, G in (("the first", sym("theta"), "n", k1, (2, 1, 2), 1, "", "grad#"), ("the second (freed and followed by a new one)", sym("theta2"), "m", k2, (5, 1), 2, "2", "grad2#")):
            for ai, (n, m) in enumerate(((1, 3), (3, 2), (8, 9), (17, 5), (9, 16))):
                rng = random.Random(repr((SEED, "hp5", ai)))
                hp1, hp2, hp3 = hyper(ai, rng), hyper(ai, rng), hyper(ai, rng)
                vals = dict(hp1); vals.update({k + "2": v for k, v in hp2.items()}); vals.update({k + "3": v for k, v in hp3.items()})
                oc = HOracle((SEED, lab, ai), "normal", vals)
                cnt = n if size == "n" else m
                theta = [oc.load(("sym", th.a[0]), 4 * k, "f32") for k in range(cnt)]
                want = ref_opt(kind, cnt, hp1 if not t else hp2, 0, 0, 0, bs, ns, theta, G)
                if t: want = ref_opt(kind, cnt, hp3, 0, 0, 0, 1, (2,), want, G)
                e = Ev(oc, {sym("n"): n, sym("m"): m})
                for k in list(range(cnt)) + [-2, -1, cnt, cnt + 1]:
                    try: got = e.mread(st.get(th), 4 * k, "f32", {})
                    except Unknown as x: ch.undecided(lab, "cannot evaluate the summary: %s" % x, w); return
                    wv = want[k] if 0 <= k < cnt else e.mread(mk("minit", th), 4 * k, "f32", {})
                    if not close_to(got, wv, 1e-4, 1e-6):
                        ch.violate(lab, w, "%s of two optimizers (%s and %s, epochs interleaved): with %d and %d parameters its parameter %d is %.8g by the summary of the code; on its own it would be %.8g" % (who, k1, k2, n, m, k, got, wv)); return
        ch.ok(lab, "summary of the interleaved history agrees with each optimizer on its own (identity testing)", w)
    guard(ch, lab, k1, go)
def t05_metrics(ch, l1, l2):
    """optimizers without explicit metrics use their own network's metric"""
    mod = tmodule("sse")
    y = layout2(mod)
    lab = "default metrics/%s next to %s" % (l1, l2)
    w = where(fn(mod, "SGD_new"))
    def go():
        L = [resolve(mod, "get_loss_func", n) for n in (l1, l2)]
        Mt = [resolve(mod, "get_metric_func", n) for n in (l1, l2)]
        for x in L + Mt:
            if not (isinstance(x, Ptr) and x.base.op == "func"): raise Unsupported("loss or metric does not resolve")
        I = Interp(mod, hooks={"neuralnet_total_n_parameters": lambda *a: N_}); I.unroll = 12
        fresh_globals(I, mod)
        ctx = Ctx([psub(N_, ONE)])
        st = St({}, I.default_root)
        os_ = []
        for nn, t, l in (("nn", "", L[0]), ("nn2", "2", L[1])):
            I.initmem[sym(nn)] = mk("mstore", mk("minit", sym(nn)), C(y["nn.loss"]), "ptr", l)
            oc, pr = sym("optconf" + t), sym("props" + t)
            I.initmem[oc] = struct([(y["op.batchsize"], "i32", ONE), (y["op.shuffle"], "i8", ZERO), (y["op.metrics"], "ptr", NULL), (y["op.progress"], "ptr", NULL)], oc)
            I.initmem[pr] = struct([(y[f], "f32", fc(0.5)) for f, _ in OPTS["SGD"]] + [(y["sgd.nesterov"], "i8", ZERO)], pr)
            o, st = I.call(fn(mod, "SGD_new"), [P_(nn), mkptr(oc), mkptr(pr)], st, ctx, ("new", t))
            os_.append(conc_ptr(o))
            st.d[oc] = mk("mundef", oc); st.d[pr] = mk("mundef", pr)
        ch.functions.update(I.funcs_seen)
        for i, (o, m) in enumerate(zip(os_, Mt)):
            if not isinstance(o, Ptr): raise Unsupported("the new optimizer is " + show(o))
            p = conc_ptr(I.load(st, mkptr(o.base, padd(o.off, C(y["o.metrics"]))), "ptr", ctx))
            if not isinstance(p, Ptr): raise Unsupported("metrics of the optimizer")
            if p is NULL: ch.violate(lab, w, "the optimizer has no metrics"); return
            q = conc_ptr(I.load(st, p, "ptr", ctx)); e = conc_ptr(I.load(st, mkptr(p.base, padd(p.off, C(8))), "ptr", ctx))
            if isinstance(q, Ptr) and q.base.op == "func" and q is not m: ch.violate(lab, w, "after both optimizers were created the %s one, whose network has loss %s, evaluates %s" % (("first", "second")[i], (l1, l2)[i], show(q))); return
            if q is not m: raise Unsupported("metric " + show(q))
            if isinstance(e, Ptr) and e is not NULL and e.base.op == "func": ch.violate(lab, w, "the metric list does not end after the metric of the loss"); return
        ch.ok(lab, "metric list read from the summary", w)
    guard(ch, lab, "SGD_new", go)
def t05_rows(ch, k1, k2):
    """two optimizers running epochs of different sample counts in turn"""
    mod = tmodule("sse")
    y = layout2(mod)
    w = where(fn(mod, "optimizer_run_epoch"))
    for hist in ([(0, 3), (1, 5), (0, 3)], [(0, 4), (1, 2), (0, 4), (1, 3)], [(1, 6), (0, 2), (1, 6), (0, 5)], [(0, 3), (1, 3), (0, 2), (1, 3)]):
        lab = "sample order/%s next to %s/epochs of %s samples" % (k1, k2, ", ".join("%s:%d" % ("ab"[i], n) for i, n in hist))
        def go():
            net = Net(mod, 1)
            log = []
            hooks = {"neuralnet_backpropagation": bp_hook(net, log), "evaluate": lambda *a: None, "progress#": lambda *a: None, "neuralnet_get_parameters": lambda *a: None, "rand": lambda *a: ZERO,
                     "time": lambda *a: ZERO, "srand": lambda *a: None, "vector_accumulate_unaligned": lambda *a: None, "neuralnet_update": lambda *a: None}
            for k in VKERNELS: hooks[k] = lambda *a: None
            fr = Freed(); hooks["free"] = fr.hook
            I = net.interp(40, with_arity(hooks, mod))
            I.on_access = fr
            fresh_globals(I, mod)
            I.initmem[sym("metrics")] = mk("mstore", mk("minit", sym("metrics")), ZERO, "ptr", NULL)
            ctx = Ctx(net.facts)
            st = St({}, I.default_root)
            os_ = []
            for i, k in enumerate((k1, k2)):
                for b, c in opt_setup(mod, k, 0, 1, 1, bs=2).items(): I.initmem[b] = c; st.d.pop(b, None)
                o, st = I.call(fn(mod, k + "_new"), [P_("nn"), mkptr(sym("optconf")), mkptr(sym("props"))], st, ctx, ("new", i))
                o = conc_ptr(o)
                if not isinstance(o, Ptr): raise Unsupported("the new optimizer is " + show(o))
                os_.append(o)
            marks = []
            for e, (i, n) in enumerate(hist):
                a0 = len(log)
                rv, st = I.call(fn(mod, "optimizer_run_epoch"), [os_[i], C(n), P_("X"), P_("Y"), ZERO, NULL, NULL, P_("results")], st, ctx, ("epoch", e))
                marks.append((a0, len(log), n))
            ch.functions.update(I.funcs_seen)
            if fr.bad: ch.violate(lab, w, fr.bad[0]); return
            e = Ev(Oracle((SEED, "t05r")), {sym("d0"): 3, sym("d1"): 2})
            for j, (a0, a1, n) in enumerate(marks):
                try: rows = [e.ev(x.off) // 12 for x, tg, _, s in log[a0:a1]]
                except Unknown as q: ch.undecided(lab, "row: %s" % q, w); return
                except OutOfSpec as q: ch.violate(lab, w, str(q)); return
                if rows != list(range(n)): ch.violate(lab, w, "epoch %d, of %d samples, uses the rows %s" % (j, n, rows)); return
            ch.ok(lab, "rows read from the summary of the interleaved history", w)
        guard(ch, lab, "optimizer_run_epoch", go)
def t05_callbacks(ch, kind, g1, g2, k2=None):
    """two callbacks fed different score histories in turn"""
    mod = tmodule("sse")
    y = layout2(mod)
    k2 = k2 or kind
    M, E = 2, 5
    lab = "two callbacks/%s %s is better next to %s %s is better" % (kind, ("smaller", "greater")[g1], k2, ("smaller", "greater")[g2])
    w = where(fn(mod, kind + "_new"))
    def go():
        fr = Freed()
        I = Interp(mod, hooks={"neuralnet_save": save_hook, "free": fr.hook}); I.unroll = 8
        I.on_access = fr
        fresh_globals(I, mod)
        I.save_args = []
        I.initmem[sym("metrics")] = metrics_list(M)
        I.initmem[sym("opt")] = opt_struct(y, M)
        I.initmem[SAVED] = mk("mfill", mk("minit", SAVED), ZERO, C(16 * E), ZERO)
        pats = [isym("patience"), isym("patience2")]
        ctx = Ctx(pats)
        st = St({}, I.default_root)
        a, st = cb_new(I, mod, y, kind, cb_cfg(y, kind, -1, g1, pats[0]), st, ctx, "a")
        def run(o, e, tag, kd):
            nonlocal st
            I.save_tag = tag * E + e
            _, st = I.call(fn(mod, "verif_callback_run"), [o, P_("opt"), P_("res%d" % (tag * E + e)), FALSE], st, ctx, ("run", tag, e))
            if kd == "earlystopping":
                r, _ = I.call(fn(mod, "earlystopping_do_stop"), [o], st.copy(), ctx, ("stop", tag, e))
                return r
        fl = {0: [], 1: []}
        fl[0].append(run(a, 0, 0, kind))
        b, st = cb_new(I, mod, y, k2, cb_cfg(y, k2, -1, g2, pats[1]), st, ctx, "b")
        if a.base is b.base: ch.violate(lab, w, "both callbacks are the same object"); return
        for e in range(3):
            fl[1].append(run(b, e, 1, k2))
            fl[0].append(run(a, e + 1, 0, kind))
        if "verif_callback_free" in mod.funcs:
            _, st = I.call(fn(mod, "verif_callback_free"), [b], st, ctx, ("free", 2))
        fl[0].append(run(a, 4, 0, kind))
        ch.functions.update(I.funcs_seen)
        if fr.bad: ch.violate(lab + ": release", w, fr.bad[0]); return
        for t in range(40 if TIER == "quick" else 300):
            rng = random.Random(repr((SEED, lab, t)))
            sc = cb_scores(rng, 2 * E)
            ps = [rng.randrange(4), rng.randrange(4)]
            ev = Ev(ScoreOracle((SEED, t), sc, 0), {sym("patience"): ps[0], sym("patience2"): ps[1]})
            for tag, kd, gr, cnt in ((0, kind, g1, 5), (1, k2, g2, 3)):
                best, since, flag = None, 0, False
                for e in range(cnt):
                    s = sc[tag * E + e]
                    better = best is None or (s > best if gr else s < best)
                    if better: best = s; since = 0
                    else: since += 1
                    if since > ps[tag]: flag = True
                    try:
                        if kd == "modelcheckpoint":
                            got = ev.ev(read(st.get(SAVED), C(8 * (tag * E + e)), "i32", Ctx()))
                            if got != int(better): ch.violate(lab, w, "the %s callback saves %d times in its epoch %d, on its own it would %d times" % (("first", "second")[tag], got, e, int(better))); return
                        else:
                            f = fl[tag][e]
                            got = bool(ev.ev(f))
                            if got != flag: ch.violate(lab, w, "the %s callback's flag is %s after its epoch %d, on its own it would be %s" % (("first", "second")[tag], got, e, flag)); return
                    except Unknown as q: ch.undecided(lab, "cannot evaluate the summary: %s" % q, w); return
                    except OutOfSpec as q: ch.violate(lab, w, str(q)); return
        ch.ok(lab, "summary of the interleaved history agrees with each callback on its own (identity testing)", w)
    guard(ch, lab, kind, go)
def t05_globals(ch, isa, openmp=False):
    mod = module(isa, openmp=openmp) if openmp else module(isa)
    tag = isa + ("/OpenMP" if openmp else "")
    for g, v, why, w in effects.global_rule(mod):
        lab = "static or global %s/%s" % (g, tag)
        if v == "ok": ch.ok(lab, why, w or g)
        elif v == "bad": ch.violate(lab, w, why)
        else: ch.undecided(lab, why, w or g)
    ch.ok("no other mutable static or global storage/" + tag, "%d functions scanned" % sum(1 for f in mod.funcs.values() if not f.decl), None)
def T05():
    ch = Check("T05"); ch.floor = 10
    ch.rule = ("every mutable global and static variable is classified by what is stored into it and where a later call's load flows (data of one instance reaching another's behaviour is a violation); "
               "interleaved histories of two optimizers of every pair of kinds (different networks, settings, batch sizes and sample counts, one freed in between) and of two callbacks are summarised and compared with each instance on its own")
    ls = ["mean_squared_error", "categorical_crossentropy", "binary_crossentropy"]
    jobs = [(t05_pair, a, b) for a in OPTS for b in OPTS]
    jobs += [(t05_metrics, a, b) for a in ls for b in ls if a != b]
    jobs += [(t05_rows, a, b) for a, b in (("SGD", "SGD"), ("adam", "adam"), ("RMSprop", "adagrad"), ("adagrad", "adam"))]
    jobs += [(t05_callbacks, k, a, b) for k in CBK for a in (0, 1) for b in (0, 1)] + [(t05_callbacks, "earlystopping", 1, 0, "modelcheckpoint"), (t05_callbacks, "modelcheckpoint", 0, 1, "earlystopping")]
    jobs += [(t05_globals, isa) for isa in ISAS] + [(t05_globals, "avx2", True)]
    parallel(ch, jobs, TMODS + [lambda isa=isa: module(isa) for isa in ISAS] + [lambda: module("avx2", openmp=True)])
    return ch.finish()
