"""Files, archives and resources: F01-F06, R01, T08. Path-sensitive typestate, ownership, bounds and string-length analysis of
the library together with small callers of its public functions (checks/probes/files.c); see engine/explore.py, models.py."""
from common import *
import explore
from explore import Explorer, Out, Fork, Stop, Limit, Found, Rep, HELD, GONE, MOVED, trace_of
from models import MODELS, new, hold, both, fails, spoken, alive, slen, nul, ext, HEAP, ENTRY, ARCH, MAP, released

PROBES = os.path.join(HERE, "probes", "files.c")
def fmod(isa="sse"): return build.module(isa, extra_src=[PROBES])

class Job:
    """one caller explored under one set of assumptions"""
    def __init__(self, name, fn, setup, hooks=None, end=None, kinds=None, bounds=True, alloc_fail=True, entries=None, seconds=240, kmax=8, cls=None, klimit=False, own=None, wrap64=False, texts=False, faults=True):
        self.wrap64, self.texts, self.faults = wrap64, texts, faults
        self.name, self.fn, self.setup, self.hooks, self.end, self.kinds, self.bounds = name, fn, setup, hooks or {}, end, kinds, bounds
        self.alloc_fail, self.entries, self.seconds, self.kmax, self.cls, self.klimit, self.own = alloc_fail, entries, seconds, kmax, cls or FX, klimit, own
TYPESTATE = ("leak", "use", "null", "twice", "mismatch", "release")
class FX(Explorer):
    job = None
    def consumed(self, S, fp, d, n, r):
        """reading r of n bytes: the position in the source and where its bytes went (for F02)"""
        if not self.wrap64 or not isinstance(fp, Ptr) or not isinstance(d, Ptr): return None
        def eff(T_):
            pos = T_.tags.get(("pos", fp.base), ZERO)
            if not isinstance(pos, P): return
            T_.tags[("filled", d.base)] = (pos, d.off, r)
            T_.tags[("pos", fp.base)] = padd(pos, r)
            if pos.const() is not None and r is n and n.const() is not None:
                for i in (8, 9):
                    if pos.const() <= i < pos.const() + n.const(): T_.tags[("byte", fp.base, i)] = self.byte(T_, mkptr(d.base, padd(d.off, C(i - pos.const()))))
            T_.tags[("from", d.base)] = fp.base
        return eff
    def problem(self, S, kind, text, extra=None): self.report(kind, text, extra=extra)

def explorer(mod, job, prove):
    E = job.cls(mod, MODELS, dict(COMMON, **job.hooks), alloc_fail=job.alloc_fail, prove=prove, kmax=job.kmax)
    E.job = job; E.entries = job.entries; E.wrap64 = job.wrap64; E.texts, E.faults = job.texts, job.faults; E.budget = 200000
    E.on_end = job.end
    return E
def start(E, job):
    f = fn(E.mod, job.fn)
    return job.setup(E, f)
def wanted(job, kind): return kind in (job.kinds or TYPESTATE)

def run_job(ch, mod, job, chase_seconds=75, most=6):
    E = explorer(mod, job, True)
    t0 = time.time(); E.deadline = min(t0 + job.seconds, T0 + 560)
    E.explore(start(E, job))
    ch.functions |= E.funcs_seen
    probs = [(("R", k), [v]) for k, v in E.reports.items() if wanted(job, k[0])]
    inrepo = lambda x: x.file and (x.file.startswith(REPO) or job.own and job.own(x))
    if job.bounds: probs += [(("B", k), v[1]) for k, v in E.bounds.items() if v[1] and wanted_bound(job, k)]
    limits = [l for l in E.limits if not (job.klimit and l.startswith("k:"))]
    hidden = set()
    for n, (tg, reps) in enumerate(probs):
        kind = tg[1][0]
        w = tg[1][1] if tg[0] == "R" else (tg[1][1].file, tg[1][1].line, tg[1][2])
        wh = "%s:%s (%s)" % (rel(w[0]), w[1], w[2])
        name = "%s: %s in %s" % (job.name, kind, w[2])
        hit = None
        for rep in reps if n < most and time.time() < T0 + 740 else ():
            F = explorer(mod, job, False); F.kmax = 12
            F.plan = [y[1:] for y in trace_of(rep.trace) if y[0] == "d"]; F.target = tg; F.budget = 5000; F.deadline = time.time() + chase_seconds / len(reps)
            F.explore(start(F, job))
            hit = F.reports.get(tg[1]) if tg[0] == "R" else (F.bounds.get(tg[1]) or (0, None, None))[2]
            if hit is not None and not hit.fuzzy: break
            hit = None
        if hit is not None: ch.violate(name, wh, "%s%s%s" % (hit.text, " when " + ", ".join(hit.labels) if hit.labels else "", ", e.g. %s" % hit.wit if hit.wit else ""), key="%s:%s:%s" % (job.name, kind, w[2]))
        else: ch.undecided(name, "%r (not confirmed on a single path)" % (reps[0],), wh)
    bad = {tg[1] for tg, r in probs}
    if limits: ch.undecided(job.name + ": all paths", "; ".join(sorted(limits))[:300])
    else:
        ch.ok(job.name + ": all paths explored", "%d abstract states, %d instructions" % (E.nstates, E.nsteps))
    if job.bounds:
        for k, v in E.bounds.items():
            if k not in bad and not limits and wanted_bound(job, k):
                ch.ok("%s: %s at %s" % (job.name, k[0], "%s:%s" % (rel(k[1].file), k[1].line)), "implied by the conditions on every path", where(None, None) if False else "%s:%s (%s)" % (rel(k[1].file), k[1].line, k[2]))
    if not limits:
        for b, at in sorted(E.acq.items(), key=lambda t: t[1]):
            if not any(k[2] == at for kk, k in [t[0] for t in probs] if kk == "R"): ch.ok("%s: %s acquired at %s is released exactly once" % (job.name, b.op if b.op == "fd" else b.a[0], at), "typestate on every path")
    if not limits and "silent" in (job.kinds or ()):
        for label, w in sorted(E.fail_sites):
            if not any(t[0] == "R" and t[1][0] == "silent" and t[1][1] == w for t, r in probs): ch.ok("%s: '%s' at %s:%s is reported" % (job.name, label, rel(w[0]), w[1]), "message on every path from the failure to the return")
    ch.notes.append("%s: %d states, %d instructions, %d path ends, %.1fs" % (job.name, E.nstates, E.nsteps, len(E.ends), time.time() - t0))
    return E
def wanted_bound(job, k): return k[1].file is not None and (k[0] in ("data", "size", "rule", "filled", "header", "name") or not k[1].file.startswith(VERIF)) and (job.own is None or job.own(k))

# ------------------------------------------------------------------ the callers' own functions
def h_data(E, S, a, x):
    p, n = E.resolve(S, a[0]), a[1]
    o = S.obj.get(p.base)
    if o is None: S.fuzzy = S.fuzzy or "data of unknown origin"; return [Out(None)]
    r = S.res.get(p.base)
    if r is not None and r[1] == GONE: E.report("use", "the data of the array is used after its release"); raise Stop()
    E.bound(S, "data", x, [p.off, psub(psub(o[0], p.off), n)], "the array states %s bytes, its buffer has %s" % (show(n, 4), show(psub(o[0], p.off), 4)))
    return [Out(None)]
def h_stated(E, S, a, x):
    """the buffer holds elem_size * shape[0] * ... * shape[ndim-1] bytes (in unbounded integers)"""
    data, nd, es, shape = a
    k = nd.const()
    if k is None:
        lit = band(ge0(nd), ge0(psub(C(8), nd)))
        E.bound(S, "size", x, [nd, psub(C(8), nd)], "the array states %s dimensions" % show(nd, 3))
        if S.ctx.implies(lit) is not True: raise Stop()
        for i in range(9):
            r = S.ctx.implies(eq0(psub(nd, C(i))))
            if r is True: k = i; break
            if r is None: raise Fork(eq0(psub(nd, C(i))))
        if k is None: raise Stop()
    n = es
    for i in range(k):
        n = pmul(n, E.load_at(S, mkptr(shape.base, padd(shape.off, C(8 * i))), "i64", x))
    out = h_data(E, S, [data, n], x)
    if E.wrap64 and not (n.const() == 0): whole(E, S, E.resolve(S, data), n, x)
    return out
def whole(E, S, p, n, x):
    """the data is what follows the header of the length the file states, and all of it was read"""
    r = S.res.get(p.base)
    if r is None: return
    def u8(t):
        c = t.const()
        return C(c & 255) if c is not None else t if S.ctx.ge0(t) else A(mk("zext8", t))
    if r[0] == MAP:
        b = [E.byte(S, mkptr(p.base, C(i))) for i in (8, 9)]; at = p.off
    else:
        f = S.tags.get(("filled", p.base)); src = S.tags.get(("from", p.base))
        b = [S.tags.get(("byte", src, i)) for i in (8, 9)]
        if f is None or None in b: S.fuzzy = S.fuzzy or "data that was not read in one piece"; return
        at = psub(f[0], f[1])
        E.bound(S, "filled", x, [psub(padd(f[1], f[2]), padd(p.off, n)), psub(p.off, f[1])], "%s of the %s bytes of the array were read" % (show(f[2], 3), show(n, 4)))
    d = psub(psub(at, C(10)), padd(u8(b[0]), pscale(u8(b[1]), 256)))
    E.bound(S, "header", x, [d, psub(ZERO, d)], "the data is taken from offset %s, but the header of the file says it is %s bytes long" % (show(at, 3), show(padd(u8(b[0]), pscale(u8(b[1]), 256)), 3)))
def h_block(E, S, a, x):
    b = new(E, S, x, HEAP, "heap")
    return [Out(mkptr(b), (), hold(b, HEAP, a[0], 16))]
def h_nop(E, S, a, x): return [Out(None)]
def h_int(E, S, a, x): return [Out(ext(E, S, x, "pint", 32))]
def h_atexit(E, S, a, x):
    t = S.tags.get("atexit", ())
    f = a[0].base.a[0] if isinstance(a[0], Ptr) and a[0].base.op == "func" else None
    if f and len(t) < 4: S.tags["atexit"] = t + (f,)
    return [Out(ZERO)]
def h_exit(E, S, a, x):
    fs = S.tags.get("atexit", ())
    if not fs: return [Out(None)]
    f = E.mod.funcs.get(fs[-1])
    S.tags["atexit"] = fs[:-1]
    if f is None or f.decl: S.fuzzy = S.fuzzy or "unknown exit handler"; return [Out(None)]
    E.push(S, f, [], x)
    return None
def h_static(E, S, a, x):
    b = new(E, S, x, HEAP, "heap")
    def eff(T_): T_.obj[b] = (a[0], 16, "caller's memory"); T_.st.d[b] = mk("mundef", b)
    return [Out(mkptr(b), (), eff)]
def h_count(E, S, a, x):
    r = ext(E, S, x, "count", 32); S.ctx = S.ctx.addf([psub(r, ONE), psub(C((1 << 31) - 1), r)]); return [Out(r)]
def h_function(E, S, a, x): return [Out(mkptr(mk("sym", ("function", mk("ext", "fn", S.fresh("function", E.key(x)))))))]
def h_size(E, S, a, x):
    r = ext(E, S, x, "size"); S.ctx = S.ctx.addf([psub(r, a[0])]); return [Out(r)]
def h_char(E, S, a, x):
    r = ext(E, S, x, "char", 8); S.ctx = S.ctx.addf([padd(r, C(128)), psub(C(127), r)]); return [Out(r)]
def h_bool(E, S, a, x):
    r = ext(E, S, x, "bool", 8); S.ctx = S.ctx.addf([r, psub(ONE, r)]); return [Out(r)]
COMMON = {"probe_stated": h_stated, "probe_static": h_static, "probe_count": h_count, "probe_function": h_function, "probe_size": h_size, "probe_char": h_char, "probe_bool": h_bool, "probe_saved_count": h_nop, "probe_header_is": h_nop,"probe_data": h_data, "probe_block": h_block, "probe_done": h_nop, "probe_item": h_nop, "probe_layer": h_nop, "probe_array": h_nop, "probe_int": h_int,
          "atexit": h_atexit, "probe_exit": h_exit}

# ------------------------------------------------------------------ arguments
class Args:
    """symbolic arguments and what is known about them"""
    def __init__(self): self.facts, self.obj, self.init, self.res, self.known = [], {}, {}, {}, {}
    def text(self, name, most=None):
        b = mk("sym", name); L = isym("len:" + name)
        self.facts.append(L)
        if most is not None: self.facts.append(psub(C(most), L))
        self.obj[b] = (padd(L, ONE), 1, "text"); self.known[b] = frozenset({(L, 0)})
        return mkptr(b)
    def block(self, name, size, kind="caller's memory", align=4):
        b = mk("sym", name); self.obj[b] = (size, align, kind)
        return mkptr(b)
    def count(self, name, most=(1 << 31) - 1):
        s = isym(name); self.facts += [s, psub(C(most), s)]
        return s
    def start(self, E, f, args):
        if len(args) != len(f.args): raise Anchor("%s takes %d arguments" % (f.name, len(f.args)))
        return E.start(f, args, self.facts, self.init, self.obj, self.res, self.known)
def with_name(*rest):
    def setup(E, f):
        A_ = Args(); return A_.start(E, f, [A_.text("filename")] + [r(A_) for r in rest])
    return setup

# ------------------------------------------------------------------ R01
def h_read(E, S, a, x):
    """_read_matrix by its contract (probe_read); its own body is explored by the jobs on single arrays"""
    E.push(S, fn(E.mod, "probe_read"), a[:2], x); return None
def h_alive(E, S, a, x):
    alive(E, S, a[0])
    if isinstance(a[0], Ptr) and a[0].base is NULLB: E.report("null", "reading from a null pointer"); raise Stop()
    return [Out(None)]
def h_got(E, S, a, x): return [Out(None)]
COMMON.update({"probe_alive": h_alive, "probe_got": h_got})
READ = {"_read_matrix": h_read}
def const(k): return lambda A_: C(k)
def resource_free(mod):
    """functions of the library that cannot reach, by any call, a function that acquires or releases something"""
    acts = {"malloc", "calloc", "realloc", "reallocarray", "posix_memalign", "aligned_alloc", "memalign", "free", "strdup", "strndup", "fopen", "fclose", "fdopen", "open", "close", "mmap", "munmap",
            "zip_open", "zip_close", "zip_discard", "zip_fopen_index", "zip_fopen", "zip_fclose", "zip_source_buffer", "zip_source_buffer_create", "zip_source_free", "zip_file_add", "dlopen", "dlclose", "_mm_malloc", "_mm_free", "exit", "abort", "asprintf", "getline", "popen", "tmpfile", "opendir"}
    bad, calls = set(), {}
    for name, f in mod.funcs.items():
        if f.decl: continue
        c = set()
        for b in f.blocks:
            for x in b.insts:
                if x.op == "call":
                    if x.callee.kind == "func": c.add(x.callee.name)
                    elif x.callee.kind != "asm": c.add("*")
        calls[name] = c
    # an indirect call of a numeric function can reach what has its address taken and a matching role; here: activations, derivatives, losses, metrics
    ch = True
    known = set(calls)
    while ch:
        ch = False
        for n, c in calls.items():
            if n not in bad and (c & acts or c & bad): bad.add(n); ch = True
    return known - bad
def numeric(mod):
    """functions that neither acquire nor release anything, nor store a pointer anywhere: their results and what they
    write are unknown numbers"""
    fs, keep = resource_free(mod), set()
    for n in fs:
        f = mod.funcs[n]
        loc = {id(v) for v in ()}
        fl = False
        for b in f.blocks:
            for x in b.insts:
                if x.op == "store" and x.ops[0].ty.k == "ptr" and not (x.ops[1].kind == "inst" and x.ops[1].inst is not None and (x.ops[1].inst.op == "alloca" or x.ops[1].inst.op == "getelementptr" and x.ops[1].inst.ops[0].kind == "inst" and x.ops[1].inst.ops[0].inst.op == "alloca")): keep.add(n)
                if x.ty is not None and x.ty.k in ("float", "double", "vector") or x.op == "store" and x.ops[0].ty.k in ("float", "double", "vector") or "float" in (x.op or ""): fl = True
        if not fl and not explore.analyse_cfg(f)[3]: keep.add(n)
    return fs - keep
def h_numeric(E, S, a, x):
    for p in a:
        if not isinstance(p, Ptr): continue
        alive(E, S, p)
        ch = S.st.d.get(p.base)
        if ch is not None and p.base.op in ("alloca", "obj") and not any(tk == "ptr" for o, tk, v in explore.cells_of(ch)[1]): E.havoc(S, p, psub(S.obj[p.base][0], p.off) if p.base in S.obj else C(4), "numbers")
    if x.ty.k == "void": return [Out(None)]
    v = E.opaque(S, x, "numeric result")
    if x.ty.k == "int" and isinstance(v, P) and x.ty.bits == 32: S.ctx = S.ctx.addf([padd(v, C(1 << 31)), psub(C((1 << 31) - 1), v)])
    return [Out(v)]
R01_JOBS = []
def r01_jobs(mod):
    J = []
    J.append(Job("mapping an array", "probe_mmap_life", with_name(), seconds=450))
    J.append(Job("loading an array", "probe_file_life", with_name(), seconds=450))
    for nd in (0, 2): J.append(Job("saving an array of %d dimensions" % nd, "probe_array_save", with_name(const(nd))))
    for n in (0, 1, 2, 3): J.append(Job("loading a list of %d entries" % n, "probe_list_life", with_name(), READ, entries=n))
    for n, named in ((0, 0), (1, 0), (2, 1)): J.append(Job("saving a list of %d %s arrays" % (n, "named" if named else "nameless"), "probe_list_save", with_name(const(n), const(named))))
    J.append(Job("building a list by append", "probe_list_append", with_name(lambda A_: isym("k"))))
    J.append(Job("building a list by prepend", "probe_list_prepend", with_name(lambda A_: isym("k"))))
    free_ = {n: h_numeric for n in numeric(mod)}
    for n in (1, 2):
        def acts(A_, n=n):
            p = A_.block("acts", C(8 * n), align=8); ch = mk("mundef", p.base)
            for i in range(n): ch = mk("mstore", ch, C(8 * i), "ptr", A_.text("activation %d" % i))
            A_.init[p.base] = ch
            return p
        J.append(Job("creating a network of %d layers" % n, "probe_net_life", lambda E, f, n=n, acts=acts: (lambda A_: A_.start(E, f, [C(n), A_.block("sizes", C(4 * n + 4)), acts(A_)]))(Args()), ACT))
    for n in (1, 2): J.append(Job("saving a network of %d layers" % n, "probe_net_write", with_name(const(n)), {"npy_array_list_save": h_list_save, "get_activation_name": h_name}))
    J.append(Job("checkpoints", "probe_checkpoint", with_name(lambda A_: A_.block("results", C(64)), lambda A_: C(-1)), {"neuralnet_save": h_nop, "get_activation_name": h_name}))
    for n in (1, 2): J.append(Job("logging %d metrics" % n, "probe_logger", with_name(const(n), lambda A_: C(1), lambda A_: A_.block("results", C(16 * n))), {"get_metric_name": h_name}))
    J.append(Job("resuming a log", "probe_logger_start", with_name(const(0)), {"probe_epoch": h_nop}))
    for o in ("sgd", "rmsprop", "adagrad", "adam"):
        J.append(Job("training with " + o, "probe_" + o, lambda E, f: (lambda A_: A_.start(E, f, [A_.count("n"), A_.count("m"), mkptr(mk("sym", "X")), mkptr(mk("sym", "Y"))]))(Args()), dict(free_, icall=h_icall), bounds=False))
    J.append(Job("loading activations from libraries", "probe_dynamic", with_name()))
    return J
def h_icall(E, S, a, x, target): return h_numeric(E, S, a, x)
def h_name(E, S, a, x): 
    b = mk("sym", ("name", x.callee.name, a[0])); n = A(mk("slen", S.st.get(b), ZERO))
    S.ctx = S.ctx.addf([psub(n, ONE), psub(C(100), n)]); S.obj[b] = (padd(n, ONE), 1, "a name"); S.known[b] = frozenset({(n, 0)})
    return [Out(mkptr(b))]
def h_list_save(E, S, a, x): return [Out(ext(E, S, x, "saved", 32))]
def h_act(E, S, a, x): return [Out(mkptr(mk("func", "an activation"))), Out(NULL)]
ACT = {"get_activation_func": h_act}
# ------------------------------------------------------------------ F06
def h_saved_count(E, S, a, x):
    r, w = a[0], S.tags.get("written")
    if not isinstance(r, P): return [Out(None)]
    if S.tags.get("lost") or w is None: E.bound(S, "rule", x, [psub(ZERO, r)], "the list did not reach the disk, but the call reports %s arrays written" % show(r, 2))
    else: E.bound(S, "rule", x, [psub(w, r)], "%s arrays were added to the archive, but the call reports %s written" % (show(w, 2), show(r, 2)))
    return [Out(None)]
def silent_end(E, S, rv):
    t = S.tags.get("silent")
    if isinstance(t, tuple): E.report("silent", "%s and no warning is printed before the call returns" % t[0], at=t[1])
    elif t is not None: S.fuzzy = S.fuzzy or "failure of unknown place"
F06_KINDS = ("silent", "abort", "leak", "twice", "use")
def f06_jobs(mod):
    J = []
    mk_ = lambda *a, **k: J.append(Job(*a, end=silent_end, kinds=F06_KINDS, alloc_fail=False, bounds=True, own=lambda k: k[0] == "rule", **k))
    for nd in (0, 1, 2): mk_("saving an array of %d dimensions" % nd, "probe_array_save", with_name(const(nd)))
    cnt = {"probe_saved_count": h_saved_count}
    for n in (0, 1, 2): mk_("saving a list of %d arrays" % n, "probe_list_save", with_name(const(n), const(n == 2)), cnt)
    for n in (1, 2): mk_("saving a compressed list of %d arrays" % n, "probe_list_compressed", with_name(const(n), lambda A_: A_.count("method")), cnt)
    mk_("saving a network of 1 layer", "probe_net_write", with_name(const(1)), {"get_activation_name": h_name})
    return J
def F06():
    ch = Check("F06")
    ch.rule = "typestate of failures: every failing open, write, close or archive operation is followed on every path by a message on standard error before the public call returns; no path aborts; archives are released; the count a list save returns is never more than what a successful close wrote"
    return run_jobs(ch, "f06_jobs")
# ------------------------------------------------------------------ F03
class Exact(FX): exact = 10 ** 6
class Entries(FX):
    """which archive entries were opened, read, named and handed out"""
    def entry_opened(self, S, b, a):
        S.tags["tried"] = S.tags.get("tried", ()) + (a[1],)
        S.tags["archive"] = a[0].base
        def eff(T_): T_.tags[("entry", b)] = a[1]
        return eff
    def entry_named(self, S, a, ok): S.tags[("named", a[1])] = ok
def h_read_entry(E, S, a, x):
    S.tags["reading"] = S.tags.get(("entry", a[0].base)) if isinstance(a[0], Ptr) else None
    return h_read(E, S, a, x)
def h_got_entry(E, S, a, x):
    i = S.tags.get("reading")
    if i is None: S.fuzzy = S.fuzzy or "an array of unknown origin"
    S.tags["got"] = S.tags.get("got", ()) + ((i, a[0].base),)
    return [Out(None)]
def wrong(E, S, x, text): E.report("rule", text, x); raise Stop()
def h_item(E, S, a, x):
    k, m, nm = a[0].const(), E.resolve(S, a[1]), E.resolve(S, a[2])
    got = S.tags.get("got", ())
    S.tags["items"] = (k or 0) + 1
    if k is None: S.fuzzy = S.fuzzy or "unknown position"; return [Out(None)]
    if k >= len(got): wrong(E, S, x, "the list has more elements than arrays were read (%d)" % len(got))
    i, b = got[k]
    if m.base is not b: wrong(E, S, x, "element %d of the list is not the array read %s of the archive" % (k, ("first", "second", "third", "fourth")[min(k, 3)]))
    ok = S.tags.get(("named", i))
    if nm.base is NULLB:
        if ok is not False: wrong(E, S, x, "element %d has no name although the archive has one" % k)
        return [Out(None)]
    if not ok: S.fuzzy = S.fuzzy or "a name of unknown origin"; return [Out(None)]
    root = mk("minit", mk("ext", "name", (S.tags["archive"], i)))
    L = A(mk("slen", root, ZERO))
    q = nul(E, S, nm)
    o = S.obj.get(nm.base)
    if nm.off.const() != 0 or o is None: S.fuzzy = S.fuzzy or "a name inside another object"; return [Out(None)]
    if q is None:
        E.bound(S, "name", x, [psub(psub(o[0], ONE), L)], "the name of element %d has no room for its %s bytes and a terminator" % (k, show(L, 3)))
        if E.byte(S, mkptr(nm.base, L)).const() != 0: S.fuzzy = S.fuzzy or "a name whose end is not known"; wrong(E, S, x, "the name of element %d is not terminated" % k)
        q = L
    E.bound(S, "name", x, [psub(q, L), psub(L, q)], "the name of element %d ends after %s bytes instead of %s" % (k, show(q, 3), show(L, 3)))
    def is_byte(j):
        """the byte at j is the name's: True, False (it is another one) or None"""
        t, want = E.byte(S, mkptr(nm.base, j)), read(root, j, "i8", S.ctx)
        if t is want or S.ctx.eq(t, want): return True
        if t.const() is not None: return False
        at = next(iter(t.atoms())) if len(t.m) == 1 and t.m[0][1] == 1 and len(t.m[0][0]) == 1 else None
        return False if at is not None and at.op == "ldm" and at.a[0].op in ("minit", "mundef") and at.a[0] is not root else None
    j = A(mk("ext", "anybyte", x.id, 64))
    ctx = S.ctx
    S.ctx = ctx.addf([j, psub(psub(L, ONE), j)])
    if S.ctx.implies(ge0(psub(L, ONE))) is False: same = True
    else: same = is_byte(j)
    S.ctx = ctx
    if same is not True:
        n = next((c for c in range(40) if S.ctx.eq(L, C(c))), None)
        if n is not None:
            rs = [is_byte(C(i)) for i in range(n)]
            same = False if False in rs else None if None in rs else True
        elif same is False and S.ctx.implies(ge0(psub(L, ONE))) is not True: same = None
    if same is not True:
        if same is None: S.fuzzy = S.fuzzy or "contents of a name that are not followed"
        wrong(E, S, x, "the name of element %d is not the name of its entry" % k)
    return [Out(None)]
def h_list_done(E, S, a, x):
    n, got, tried = S.tags.get("items", 0), S.tags.get("got", ()), S.tags.get("tried", ())
    if n < len(got): wrong(E, S, x, "%d arrays were read, the list has %d" % (len(got), n))
    if S.tags.get("lost"): return [Out(None)]
    want = tuple(C(i) for i in range(E.entries))
    if tried != want: wrong(E, S, x, "an archive of %d entries: the entries read are %s" % (E.entries, ", ".join(show(t, 2) for t in tried) or "none"))
    return [Out(None)]
def f03_jobs(mod):
    H = {"_read_matrix": h_read_entry, "probe_got": h_got_entry, "probe_item": h_item, "probe_done": h_list_done}
    J = []
    for n in (0, 1, 2, 3, 4): J.append(Job("loading an archive of %d entries" % n, "probe_list_load", with_name(), H, entries=n, cls=Entries, alloc_fail=False, kmax=16, kinds=("abort", "rule", "use", "null", "release", "const"), seconds=300))
    return J
def F03():
    ch = Check("F03")
    ch.rule = "for every outcome of reading each entry: the returned list holds exactly the arrays that were read, in archive order, each under a full copy of its entry's name; entry names only flow where data may; no access outside an object and no abort"
    return run_jobs(ch, "f03_jobs")
# ------------------------------------------------------------------ F02
def f02_jobs(mod):
    J = []
    mk_ = lambda *a, **k: J.append(Job(*a, kinds=("null", "use", "abort", "release", "twice", "const"), wrap64=True, **k))
    mk_("loading an array", "probe_array_load", with_name(), seconds=450)
    mk_("mapping an array", "probe_array_mmap", with_name(), seconds=450)
    def entry(E, f):
        A_ = Args(); p = mkptr(mk("sym", "entry")); A_.res[p.base] = (ENTRY, HELD); return A_.start(E, f, [p])
    mk_("reading an archive entry", "probe_entry_read", entry, seconds=450)
    return J
def F02():
    ch = Check("F02")
    ch.rule = "every access of the reader lies inside its object, no path aborts, and an array that is returned has a buffer of at least elem_size * product(shape) bytes, whatever bytes the file holds"
    return run_jobs(ch, "f02_jobs")
# ------------------------------------------------------------------ F05
import texts
def h_given_layer(E, S, a, x):
    if a[0].const() is not None: S.tags[("layer", a[0].const())] = tuple(a[1:])
    return [Out(None)]
COMMON["probe_given_layer"] = h_given_layer
def h_saved_list(E, S, a, x):
    E.push(S, fn(E.mod, "probe_saved"), a[:2], x); return None
def unclear(S, what): S.fuzzy = S.fuzzy or what
def is_value(E, S, v, want, x, text):
    """v = want on every path, or a violation (a concrete path and values are looked for when it is replayed)"""
    c = E._cond(v)
    if c is not None: raise Fork(c)
    d = psub(v, want)
    E.bound(S, "rule", x, [d, psub(ZERO, d)], text)
def contents(E, S, p, n):
    """tokens of the n bytes at p"""
    return texts.text(E, S, S.st.get(p.base), p.off, padd(p.off, n))
def same_bytes(E, S, x, p, q, n, text):
    """the n bytes at p are the n bytes at q (as they are now)"""
    if isinstance(p, Ptr) and p.base is q.base:
        if p.off is not q.off: is_value(E, S, p.off, q.off, x, text)
        return
    if p.base is NULLB: wrong(E, S, x, text)
    try: t, u = contents(E, S, p, n), contents(E, S, q, n)
    except texts.Unclear as e: unclear(S, "contents of an array: %s" % e); wrong(E, S, x, text)
    r = texts.equal(S, t, u)
    if r: return
    if r is None: unclear(S, "contents of an array")
    wrong(E, S, x, text)
def h_array(E, S, a, x):
    """element k of the list that is to be written"""
    k, m, data, nd, s0, s1, tc, en, es, fo, nm = a
    k, nn = k.const(), S.tags.get("layers", 0)
    n = sum(1 for t in S.tags if isinstance(t, tuple) and t[0] == "layer")
    if k is None: unclear(S, "position in the list"); wrong(E, S, x, "the position of an array is not known")
    S.tags["arrays"] = k + 1
    if k > 2 * n: wrong(E, S, x, "more than %d arrays are written for %d layers" % (2 * n + 1, n))
    data = E.resolve(S, data)
    name = "array %d" % k
    try: nm = texts.string_at(E, S, nm)
    except texts.Unclear: nm = None
    if nm is not None:
        for i in range(k):
            if S.tags.get(("name", i)) == nm: wrong(E, S, x, "arrays %d and %d have the same name" % (i, k))
        S.tags[("name", k)] = nm
    is_value(E, S, fo, ZERO, x, "%s is written as Fortran ordered" % name)
    if k < 2 * n:
        n_in, n_out, w, b, act = S.tags[("layer", k // 2)]
        is_value(E, S, tc, C(ord("f")), x, "%s has type '%s'" % (name, show(tc, 2)))
        is_value(E, S, es, C(4), x, "%s has elements of %s bytes" % (name, show(es, 2)))
        if en.const() is not None and chr(en.const() & 255) in ">!": wrong(E, S, x, "%s is written as big endian" % name)
        if k % 2 == 0:
            is_value(E, S, nd, C(2), x, "the weights of layer %d have %s dimensions" % (k // 2, show(nd, 2)))
            is_value(E, S, s0, n_in, x, "the weights of layer %d: first dimension %s, the layer has %s inputs" % (k // 2, show(s0, 3), show(n_in, 3)))
            is_value(E, S, s1, n_out, x, "the weights of layer %d: second dimension %s, the layer has %s outputs" % (k // 2, show(s1, 3), show(n_out, 3)))
            same_bytes(E, S, x, data, w, pscale(pmul(n_in, n_out), 4), "%s does not hold the weights of layer %d" % (name, k // 2))
        else:
            is_value(E, S, nd, ONE, x, "the biases of layer %d have %s dimensions" % (k // 2, show(nd, 2)))
            is_value(E, S, s0, n_out, x, "the biases of layer %d: dimension %s, the layer has %s outputs" % (k // 2, show(s0, 3), show(n_out, 3)))
            same_bytes(E, S, x, data, b, pscale(n_out, 4), "%s does not hold the biases of layer %d" % (name, k // 2))
        return [Out(None)]
    is_value(E, S, tc, C(ord("S")), x, "the names of the activations have type '%s'" % show(tc, 2))
    is_value(E, S, nd, ONE, x, "the names of the activations have %s dimensions" % show(nd, 2))
    is_value(E, S, s0, C(n), x, "%s names of activations for %d layers" % (show(s0, 2), n))
    for i in range(n):
        t = E.resolve(S, named(E, S, S.tags[("layer", i)][4], x))
        L = slen(E, S, t, x)
        E.bound(S, "rule", x, [psub(es, L)], "names of %s bytes, the name of layer %d has %s" % (show(es, 3), i, show(L, 3)))
        at = mkptr(data.base, padd(data.off, pscale(es, i)))
        try: have = contents(E, S, at, es)
        except texts.Unclear as e: unclear(S, "names of activations: %s" % e); wrong(E, S, x, "the name of layer %d is not in place" % i)
        rest = have
        want = texts.text(E, S, S.st.get(t.base), t.off, padd(t.off, L)) if not L.const() == 0 else ()
        got = ZERO; ok = True; out = []
        for y in have:
            if E.S.ctx.eq(got, L): break
            out.append(y); got = padd(got, texts.tlen(E, S, y))
        r = texts.equal(S, tuple(out), tuple(want)) if E.S.ctx.eq(got, L) else False
        if r and E.S.ctx.eq(got, L): pass
        else:
            if r is None or any(isinstance(y, tuple) and (y[0] == "chr" or y[0] == "mem" and y[1].op == "ext") for y in have): unclear(S, "names of activations")
            wrong(E, S, x, "the name of layer %d is not at its place in the array of names" % i)
        for y in have[len(out):]:
            if isinstance(y, tuple) and y[0] == "chr": unclear(S, "names of activations")
            if y != ("zero",) and y != ("fill", ZERO, y[2] if len(y) > 2 else None): wrong(E, S, x, "the name of layer %d is followed by something else than zeros" % i)
    return [Out(None)]
def named(E, S, act, x):
    class Y: pass
    r = []
    b = mk("sym", ("name", "get_activation_name", act))
    return mkptr(b)
def h_saved_done(E, S, a, x):
    n = sum(1 for t in S.tags if isinstance(t, tuple) and t[0] == "layer")
    if S.tags.get("arrays", 0) != 2 * n + 1: wrong(E, S, x, "%d arrays are written for %d layers" % (S.tags.get("arrays", 0), n))
    S.tags["saved"] = S.tags.get("saved", 0) + 1
    return [Out(None)]
def h_given(E, S, a, x):
    if E.texts: S.tags[("given", a[0].base)] = (a[1], a[2]); S.tags["order"] = S.tags.get("order", ()) + (a[0].base,)
    return [Out(None)]
COMMON["probe_given"] = h_given
def h_header(E, S, a, x):
    """the header of an array (its text is decided by F01)"""
    m, buf = E.resolve(S, a[0]), E.resolve(S, a[1])
    n = ext(E, S, x, "headerlen", 64)
    S.ctx = S.ctx.addf([psub(n, C(64)), psub(C(900), n)])
    S.tags["header"] = (m.base, E.havoc(S, buf, n, "header"), n)
    S.tags["tried"] = S.tags.get("tried", ()) + (m.base,)
    return [Out(n)]
def image(E, S, x, have, what):
    """the tokens are the header and the data of the array whose header was made last"""
    t = S.tags.get("header")
    if t is None or ("given", t[0]) not in S.tags: unclear(S, "an array of unknown origin"); wrong(E, S, x, "%s has no header" % what)
    data, n = S.tags[("given", t[0])]
    want = [("mem", t[1], ZERO, t[2])]
    for y in want[:1]:
        if not have or not texts.tsame(S, have[0], y):
            if have and (isinstance(have[0], str) or have[0][0] not in ("mem", "undef")): unclear(S, "contents of %s" % what)
            wrong(E, S, x, "%s does not begin with the header" % what)
    if S.ctx.implies(eq0(n)) is None and len(have) != 2: raise Fork(eq0(n))
    if S.ctx.implies(eq0(n)) is True and len(have) == 1: return
    if len(have) < 2: wrong(E, S, x, "%s ends after the header" % what)
    u = contents(E, S, data, n)
    r = texts.equal(S, tuple(have[1:]), u)
    if r: return
    if r is None or len(u) == 1 and len(have) == 2 and u[0][0] == have[1][0] and u[0][1] is have[1][1]:
        if r is False:
            is_value(E, S, have[1][2], u[0][2], x, "%s holds the data from offset %s" % (what, show(have[1][2], 3)))
            is_value(E, S, have[1][3], u[0][3], x, "%s holds %s of %s bytes of the data" % (what, show(have[1][3], 4), show(u[0][3], 4)))
            return
        unclear(S, "contents of %s" % what)
    wrong(E, S, x, "%s does not hold the data of its array" % what)
class Writer(FX):
    """what is put into archive entries and files"""
    def entry_added(self, S, z, name, src, x):
        if not self.texts: return
        s = S.tags.get(("source", src.base))
        if s is None: unclear(S, "an entry of unknown origin"); return
        try: have = texts.text(self, S, s[0], s[1], padd(s[1], s[2]))
        except texts.Unclear as e: unclear(S, "contents of an entry: %s" % e); wrong(self, S, x, "the entry does not hold its array")
        image(self, S, x, have, "the archive entry")
    def written(self, S, name, fp, a, x):
        if not self.texts: return
        if name != "fwrite": unclear(S, "%s to the file" % name); return
        n = pmul(a[1], a[2])
        d = self.resolve(S, a[0])
        if S.ctx.implies(eq0(n)) is True: return
        try: have = contents(self, S, d, n)
        except texts.Unclear as e: unclear(S, "contents of the file: %s" % e); have = ()
        S.tags["out"] = S.tags.get("out", ()) + tuple(have)
    def writing(self, S, fp):
        """the file is closed: the array is in it"""
        if self.texts and S.tags.get("tried"):
            fr = S.frames[-1]
            image(self, S, fr.b.insts[fr.k], S.tags.get("out", ()), "the file")
        return True
def h_list_written(E, S, a, x):
    want = S.tags.get("order", ())
    got = S.tags.get("tried", ())
    if set(got) != set(want) or len(got) != len(want): wrong(E, S, x, "%d arrays of a list of %d are written" % (len(got), len(want)))
    if got != want[::-1]: wrong(E, S, x, "the arrays are not written in the order of the list")
    return [Out(None)]
def f05_jobs(mod):
    J = []
    H = {"npy_array_list_save": h_saved_list, "npy_array_list_save_compressed": h_saved_list, "get_activation_name": h_name, "probe_array": h_array, "probe_done": h_saved_done}
    for n in (1, 2, 3): J.append(Job("saving a network of %d layers" % n, "probe_net_write", with_name(const(n)), H, alloc_fail=False, kinds=("abort", "rule", "use", "null", "release", "twice", "const"), texts=True, own=lambda k: k[0] == "rule", seconds=150))
    def modest(E, S, a, x):
        r = ext(E, S, x, "count", 32); S.ctx = S.ctx.addf([psub(r, ONE), psub(C(20000), r)]); return [Out(r)]
    for n in (1, 2, 3): J.append(Job("loading a saved network of %d layers" % n, "probe_net_load_back", with_name(), dict(LOAD, npy_array_list_load=h_reloaded, probe_none=h_refused, probe_count=modest), entries=n, alloc_fail=False, kinds=("abort", "rule", "use", "null", "release", "twice", "const"), texts=True, own=lambda k: k[0] == "rule", seconds=150, cls=Exact))
    kinds = ("abort", "rule", "use", "null", "const")
    for n in (1, 2, 3): J.append(Job("writing a list of %d arrays" % n, "probe_list_save", with_name(const(n), const(1)), {"npy_array_get_header": h_header, "probe_saved_count": h_list_written}, alloc_fail=False, kinds=kinds, texts=True, own=lambda k: k[0] == "rule", seconds=150, cls=Writer, faults=False))
    for nd in (0, 1, 3): J.append(Job("writing an array of %d dimensions" % nd, "probe_array_save", with_name(const(nd)), {"npy_array_get_header": h_header}, alloc_fail=False, kinds=kinds, texts=True, own=lambda k: k[0] == "rule", seconds=150, cls=Writer, faults=False))
    return J
def F05():
    ch = Check("F05")
    ch.rule = "the list that neuralnet_save hands to the archive writer: per layer weights (inputs, outputs) and biases (outputs), float32, C order, the layer's own data, under distinct names; then one array of one name per layer, each complete and padded with zeros"
    return run_jobs(ch, "f05_jobs")
# ------------------------------------------------------------------ F04
def h_dims(E, S, a, x):
    """the number of dimensions of array k: what a file of a network has there; at most one array of a file has another one"""
    k, ts = a[0].const(), E.job.types
    d = 1 if ts[k] == "S" or ts[:k].count("f") % 2 else 2
    outs = [Out(C(d))]
    if not S.tags.get("odd"):
        r = ext(E, S, x, "ndim", 32)
        outs += [Out(C(3 - d), (), odd(k)), Out(r, (ge0(r), ge0(psub(C(8), r)), bnot(eq0(psub(r, ONE))), bnot(eq0(psub(r, C(2))))), odd(k))]
    return outs
def odd(k):
    def eff(T_): T_.tags["odd"] = k + 1
    return eff
def h_order(E, S, a, x):
    return [Out(FALSE)] + ([Out(TRUE, (), odd(a[0].const()))] if not S.tags.get("odd") else [])
def h_endian(E, S, a, x):
    c = ord("|" if E.job.types[a[0].const()] == "S" else "<")
    r = ext(E, S, x, "endian", 8)
    return [Out(C(c))] + ([Out(r, (ge0(padd(r, C(128))), ge0(psub(C(127), r)), bnot(eq0(psub(r, C(c))))), odd(a[0].const()))] if not S.tags.get("odd") else [])
def h_width(E, S, a, x):
    r = ext(E, S, x, "width")
    if E.job.types[a[0].const()] == "S": return [Out(r, (ge0(psub(r, ONE)),))]
    return [Out(C(4))] + ([Out(r, (ge0(psub(r, ONE)), bnot(eq0(psub(r, C(4))))), odd(a[0].const()))] if not S.tags.get("odd") else [])
def h_total(E, S, a, x):
    """the size of the data of an array by what F02 decides"""
    m, nd, es, s0, s1 = a
    if nd.const() == 1: return [Out(pmul(es, s0))]
    if nd.const() == 2: return [Out(pmul(es, pmul(s0, s1)))]
    d = ext(E, S, x, "bytes"); S.ctx = S.ctx.addf([d])
    return [Out(d)]
def h_loaded_array(E, S, a, x):
    S.tags[("file", a[0].const())] = tuple(a[1:-1]) + (E.resolve(S, a[-1]),)
    return [Out(None)]
def h_loaded(E, S, a, x):
    E.push(S, fn(E.mod, "probe_loaded"), [a[0], C(len(E.job.types))], x); return None
def h_type(E, S, a, x):
    t = E.job.types[a[0].const()]
    if t != "?": return [Out(C(ord(t)))]
    r = ext(E, S, x, "char", 8)
    S.ctx = S.ctx.addf([padd(r, C(128)), psub(C(127), r)]).plus([bnot(eq0(psub(r, C(ord(c))))) for c in "fS"])
    return [Out(r)]
def h_rows(E, S, a, x):
    if E.job.types[a[0].const()] == "S" and E.job.names is not None: return [Out(C(E.job.names))]
    return h_size(E, S, [C(E.job.names is None and 4 or 0)], x)
def h_reloaded(E, S, a, x):
    E.push(S, fn(E.mod, "probe_reloaded"), [a[0], C(E.entries)], x); return None
def holds(S, b):
    r = S.ctx.implies(b)
    if r is None: raise Fork(b)
    return r
def sorted_file(E, S):
    """the arrays of the file, in order: (those of numbers, those of names, others); splits the state where a type is not known"""
    f, s, o = [], [], []
    for k in range(999):
        t = S.tags.get(("file", k))
        if t is None: break
        tc = t[3]
        if holds(S, eq0(psub(tc, C(ord("f"))))): f.append(t)
        elif holds(S, eq0(psub(tc, C(ord("S"))))): s.append(t)
        else: o.append(t)
    return f, s, o
def h_wanted_activation(E, S, a, x):
    """the function of a name: known by the bytes of the file that the name consists of"""
    p = E.resolve(S, a[0])
    if p.base is NULLB: E.report("null", "an activation is looked up without a name"); raise Stop()
    alive(E, S, p)
    t = E.cstr(p)
    if t is not None: return [Out(mkptr(mk("func", ("activation", t))))]
    f, s, o = sorted_file(E, S)
    key = None
    for t in s + f + o:
        es, data = t[5], t[7]
        try: have = contents(E, S, p, es)
        except texts.Unclear: continue
        if len(have) != 1 or have[0][0] not in ("mem", "undef") or have[0][1] is not data.base: continue
        key = have[0][2] if t is s[0] else "another array"
        if p.base in S.obj: E.bound(S, "rule", x, [psub(S.obj[p.base][0], padd(padd(p.off, es), ONE))], "the name of an activation has no room for its terminator")
        try:
            e = padd(p.off, es); y, n = texts.piece(E, S, S.st.get(p.base), e, padd(e, ONE))
            if y == ("zero",) or isinstance(y, tuple) and y[0] == "fill" and y[1].const() == 0: break
            if not isinstance(y, tuple) or y[0] not in ("mem", "undef", "fill"): unclear(S, "what follows a name")
        except texts.Unclear: unclear(S, "what follows a name")
        wrong(E, S, x, "the name of an activation is not terminated")
    if key is None: unclear(S, "which name is looked up")
    b = mk("func", ("activation", key)) if key is not None else mk("func", "an activation")
    def unknown(T_): T_.tags[("unresolved", key)] = 1
    return [Out(mkptr(b)), Out(NULL, (), unknown)]
def h_loaded_layer(E, S, a, x):
    i, n_in, n_out, w, b, act = a
    i = i.const()
    if i is None: unclear(S, "which layer"); wrong(E, S, x, "a layer of unknown position")
    f, s, o = sorted_file(E, S)
    if len(f) < 2 * i + 2: wrong(E, S, x, "a network of more than %d layers is returned for a file with %d arrays of numbers" % (i, len(f)))
    for t, nd, what in ((f[2 * i], 2, "weights"), (f[2 * i + 1], 1, "biases")):
        is_value(E, S, t[0], C(nd), x, "the %s of layer %d come from an array of %s dimensions" % (what, i, show(t[0], 2)))
        is_value(E, S, t[5], C(4), x, "the %s of layer %d come from an array with elements of %s bytes" % (what, i, show(t[5], 2)))
        is_value(E, S, t[6], ZERO, x, "the %s of layer %d come from an array in Fortran order" % (what, i))
        if S.ctx.implies(eq0(psub(t[4], C(ord(">"))))) is not False:
            if holds(S, eq0(psub(t[4], C(ord(">"))))): wrong(E, S, x, "the %s of layer %d come from a big endian array" % (what, i))
    W, B = f[2 * i], f[2 * i + 1]
    is_value(E, S, n_in, W[1], x, "layer %d has %s inputs, its weights have %s rows" % (i, show(n_in, 3), show(W[1], 3)))
    is_value(E, S, n_out, W[2], x, "layer %d has %s outputs, its weights have %s columns" % (i, show(n_out, 3), show(W[2], 3)))
    is_value(E, S, n_out, B[1], x, "layer %d has %s outputs and %s biases" % (i, show(n_out, 3), show(B[1], 3)))
    E.bound(S, "rule", x, [psub(n_in, ONE), psub(n_out, ONE)], "layer %d has %s inputs and %s outputs" % (i, show(n_in, 3), show(n_out, 3)))
    if i: is_value(E, S, n_in, S.tags[("out", i - 1)], x, "layer %d has %s inputs, the layer before it has %s outputs" % (i, show(n_in, 3), show(S.tags[("out", i - 1)], 3)))
    S.tags[("out", i)] = n_out
    same_bytes(E, S, x, E.resolve(S, w), W[7], pscale(pmul(n_in, n_out), 4), "the weights of layer %d are not those of the file" % i)
    same_bytes(E, S, x, E.resolve(S, b), B[7], pscale(n_out, 4), "the biases of layer %d are not those of the file" % i)
    if not s: wrong(E, S, x, "a network is returned for a file without activations")
    nd, s0, s1, tc, en, es, fo, data = s[0]
    is_value(E, S, nd, ONE, x, "the activations come from an array of %s dimensions" % show(nd, 2))
    E.bound(S, "rule", x, [psub(s0, C(i + 1))], "the file has %s activations, the network has more than %d layers" % (show(s0, 3), i))
    act = E.resolve(S, act)
    if act.base is NULLB: wrong(E, S, x, "layer %d has no activation function" % i)
    if act.base.op != "func" or not isinstance(act.base.a[0], tuple): unclear(S, "where an activation comes from"); wrong(E, S, x, "the activation of layer %d is not the one the file names" % i)
    key = act.base.a[0][1]
    if key == "linear":
        if not any(S.tags.get(("unresolved", k)) for k in [pscale(es, i)]): wrong(E, S, x, "layer %d is linear although the name in the file was not looked up or was found" % i)
        return [Out(None)]
    if isinstance(key, str): wrong(E, S, x, "layer %d gets the activation '%s' whatever the file names" % (i, key))
    is_value(E, S, key, pscale(es, i), x, "the activation of layer %d is looked up by the name at byte %s of names of %s bytes" % (i, show(key, 3), show(es, 2)))
    return [Out(None)]
def h_loaded_layers(E, S, a, x):
    n = a[0].const()
    if n is None: unclear(S, "number of layers"); n = -1
    f, s, o = sorted_file(E, S)
    if n < 1: wrong(E, S, x, "a network of %d layers is returned" % n)
    if len(f) != 2 * n: wrong(E, S, x, "a network of %d layers is returned for a file with %d arrays of numbers" % (n, len(f)))
    if len(s) != 1: wrong(E, S, x, "a network is returned for a file with %d arrays of names" % len(s))
    if o: wrong(E, S, x, "a network is returned for a file with an array of another type")
    return [Out(None)]
def h_refused(E, S, a, x): wrong(E, S, x, "a file that was written by saving a network is refused")
COMMON.update({"probe_dims": h_dims, "probe_order": h_order, "probe_endian": h_endian, "probe_width": h_width, "probe_type": h_type, "probe_rows": h_rows, "probe_total": h_total, "probe_loaded_array": h_loaded_array, "probe_layers": h_nop, "probe_none": h_nop})
LOAD = {"npy_array_list_load": h_loaded, "get_activation_func": h_wanted_activation, "probe_layer": h_loaded_layer, "probe_layers": h_loaded_layers}
def f04_jobs(mod):
    import itertools
    J, pats = [], []
    for n in range(5): pats += ["".join(t) for t in itertools.product("fS", repeat=n)]
    pats += ["?", "?ff", "f?f", "ffS?", "f?S", "fffff", "ffffS", "fffSf", "ffSff", "fSfff", "Sffff", "fffffS", "ffffffS", "SffSff"]
    for t in pats:
        for k in ((0, 1, 2, 3) if t.count("f") == 6 else (0, 1, 2)) if "S" in t else (0,):
            j = Job("loading a network from arrays of types '%s'%s" % (t, " and %d names" % k if "S" in t else ""), "probe_net_load", with_name(), LOAD, kinds=("abort", "rule", "use", "null", "release", "twice", "const"), texts=True, seconds=200, cls=Exact)
            j.types, j.names = t, k; J.append(j)
    return J
def F04():
    ch = Check("F04")
    ch.rule = "for every list of arrays an archive may hold: a returned network has one layer per pair of number arrays, the layers chain, dimensions, element size and order of every array fit, parameters are byte for byte the file's, each activation is looked up by the complete name the file has for its layer; no access outside an object, no abort"
    return run_jobs(ch, "f04_jobs")
# ------------------------------------------------------------------ F01
def h_letter(E, S, a, x):
    r = ext(E, S, x, "letter", 8); S.ctx = S.ctx.addf([psub(r, C(48)), psub(C(122), r)]); return [Out(r)]
def h_header_is(E, S, a, x):
    import re
    buf, n, nd, shape, tc, en, es, fo = a
    nd = nd.const()
    def bad(text): wrong(E, S, x, "an array of %d dimensions: %s" % (nd, text))
    if not S.ctx.aligned(n, 64):
        c = n.const()
        if c is None and not any(at.op == "fdiv" for at in n.atoms()): unclear(S, "length of the header")
        bad("the header ends at byte %s, which is not a multiple of 64" % show(n, 5))
    try: have = contents(E, S, buf, n)
    except texts.Unclear as e: unclear(S, "text of the header: %s" % e); bad("the text of the header is not known")
    out = []
    for t in have:                                                       # every character or value is one item
        if isinstance(t, str): out += list(t)
        elif t[0] == "zero": out.append("\0")
        else: out.append(t)
    pre = ["\x93"] + list("NUMPY\x01\0")
    if out[:8] != pre:
        if any(isinstance(t, tuple) for t in out[:8]): unclear(S, "the first bytes of the header")
        bad("the header begins with %r" % ([t if isinstance(t, str) else "?" for t in out[:8]],))
    dl = psub(n, C(10))
    lo, hi = (out + [None, None])[8:10]
    def u(t): return C(ord(t)) if isinstance(t, str) else None
    if isinstance(lo, tuple) and isinstance(hi, tuple) and lo[0] == hi[0] == "byte" and lo[1] is hi[1] and lo[2] == 0 and hi[2] == 1:
        is_value(E, S, lo[1], dl, x, "the header states %s bytes, there are %s" % (show(lo[1], 4), show(dl, 4)))
    elif isinstance(lo, str) and isinstance(hi, str): is_value(E, S, C(ord(lo) + 256 * ord(hi)), dl, x, "the header states %d bytes, there are %s" % (ord(lo) + 256 * ord(hi), show(dl, 4)))
    else:
        if not (isinstance(lo, tuple) and isinstance(hi, tuple) and lo[0] == hi[0] == "byte" and lo[1] is hi[1]): unclear(S, "how the length is stored")
        bad("the length of the header is not stored in two bytes, low byte first")
    items, body = [], ""
    for t in out[10:]:
        if isinstance(t, str): body += t
        else: body += chr(0xE000 + len(items)); items.append(t)
    def item(c): return items[ord(c) - 0xE000] if ord(c) >= 0xE000 else c
    V = "[\ue000-\uf000]"
    m = re.fullmatch("(\\{.*\\})((?: |%s)*)(\\n?)" % V, body, re.S)
    def readable(): return "".join(c if ord(c) < 0xE000 else "<%s>" % (items[ord(c) - 0xE000][0],) for c in body)[:150]
    odd = [t for t in items if t[0] not in ("num", "chr", "fill")]
    if m is None or odd:
        if odd: unclear(S, "a piece of the header")
        bad("the header is not a dictionary, spaces and a newline: %s" % readable())
    if m.group(3) != "\n": bad("the header does not end with a newline")
    for c in m.group(2):
        t = item(c)
        if t != " " and (t[0] != "fill" or t[1].const() != 32): bad("the header is not padded with spaces")
    d = m.group(1)
    f = re.search("'descr': '(.)(.)(\\d+|%s)'" % V, d, re.S); g = re.search("'fortran_order': (True|False)(?=[,} ])", d); h = re.search("'shape': \\(([^()']*)\\)(?=[,} ])", d)
    for r, w in ((f, "descr"), (g, "fortran_order"), (h, "shape")):
        if r is None: bad("the dictionary has no %s that can be read: %s" % (w, readable()))
    rest = d
    for r in (f, g, h): rest = rest.replace(r.group(0), "x", 1)
    if not re.fullmatch("\\{ *x *, *x *, *x *(, *)?\\}", rest): bad("the dictionary is not of three entries: %s" % readable())
    # the type
    e, t, w = item(f.group(1)), item(f.group(2)), item(f.group(3)) if len(f.group(3)) == 1 else f.group(3)
    if isinstance(e, tuple):
        is_value(E, S, e[1], en, x, "the byte order is written as %s" % show(e[1], 3))
        if not any(holds(S, eq0(psub(en, C(ord(c))))) for c in "<>|"): bad("a byte order that is none is written")
    else:
        for c in "<>|":
            if holds(S, eq0(psub(en, C(ord(c))))):
                if e != c: bad("the byte order '%s' is written as '%s'" % (c, e))
                break
        else:
            if e not in "<|": bad("an unknown byte order is written as '%s'" % e)
            if e == "|" and not holds(S, eq0(psub(es, ONE))) and not holds(S, eq0(psub(tc, C(ord("S"))))): bad("elements of several bytes are written without a byte order")
    is_value(E, S, t[1] if isinstance(t, tuple) else C(ord(t)), tc, x, "the type is written as %s" % (show(t[1], 3) if isinstance(t, tuple) else repr(t)))
    def number(t, v, what):
        if isinstance(t, str): return is_value(E, S, C(int(t)), v, x, "%s is written as %s" % (what, t))
        if t[0] != "num": unclear(S, "a number"); bad("%s is not written as a number" % what)
        if re.fullmatch("%(l|ll|z|j|t|q|)[dui]", t[1]) is None: bad("%s is written with '%s'" % (what, t[1]))
        if t[1] in ("%d", "%u", "%i") and t[2] is v and not S.ctx.ge0(psub(C(2 ** 31 - 1), v)): bad("%s is written with '%s', which is too narrow" % (what, t[1]))
        is_value(E, S, t[2], v, x, "%s is written as %s" % (what, show(t[2], 3)))
    number(w, es, "the element size")
    is_value(E, S, ONE if g.group(1) == "True" else ZERO, boolval(S, fo), x, "fortran_order is written as %s" % g.group(1))
    parts = [y.strip(" ") for y in h.group(1).split(",")]
    if parts and parts[-1] == "": parts.pop()
    if len(parts) != nd: bad("the shape has %d numbers" % len(parts))
    if nd == 1 and "," not in h.group(1): bad("the shape of one dimension is not a tuple: (%s)" % readable())
    for i, y in enumerate(parts):
        if not (len(y) == 1 and ord(y) >= 0xE000 or y.isdigit()): bad("dimension %d is not a number" % i)
        number(item(y) if len(y) == 1 and ord(y) >= 0xE000 else y, E.load_at(S, mkptr(shape.base, padd(shape.off, C(8 * i))), "i64", x), "dimension %d" % i)
    return [Out(None)]
def boolval(S, b):
    if isinstance(b, P): return b
    return ONE if holds(S, b) else ZERO
COMMON.update({"probe_letter": h_letter, "probe_header_is": h_header_is})
def f01_jobs(mod):
    J = []
    kinds = ("abort", "rule", "use", "null", "const")
    for nd in range(9):
      for fo in range(2): J.append(Job("the header of an array of %d dimensions, %s" % (nd, "Fortran order" if fo else "C order"), "probe_header", lambda E, f, nd=nd, fo=fo: Args().start(E, f, [C(nd), C(fo)]), kinds=kinds, texts=True, alloc_fail=False, seconds=150, cls=Exact))
    J.append(Job("writing an array of 8 dimensions", "probe_array_save", with_name(const(8)), kinds=kinds, texts=True, alloc_fail=False, faults=False, seconds=150, cls=Exact))
    J.append(Job("writing a list with an array of 8 dimensions", "probe_list_save_wide", with_name(), kinds=kinds, texts=True, alloc_fail=False, faults=False, seconds=150, cls=Exact))
    return J
def F01():
    ch = Check("F01")
    ch.rule = "the tokens of the header that is built, for each number of dimensions and any type, order and extents: magic, version 1.0, little endian length of what follows, a dictionary of type, order and every dimension, spaces and a newline up to a multiple of 64; no access outside a buffer"
    return run_jobs(ch, "f01_jobs")
T0 = time.time()
def run_jobs(ch, maker):
    sel = sys.argv[2:]
    parallel(ch, [(run_job_named, maker, i) for i, j in enumerate(globals()[maker](fmod())) if not sel or any(s in j.name for s in sel)])
    return ch.finish()
def R01():
    ch = Check("R01")
    ch.rule = "ownership and typestate of every memory block, file, descriptor, mapping, archive, archive entry, archive source and loaded library on every path (each library call succeeds or fails in each documented way) through callers that use the public functions and give back what they were handed"
    return run_jobs(ch, "r01_jobs")
def run_job_named(ch, maker, i):
    mod = fmod()
    job = globals()[maker](mod)[i]
    try: run_job(ch, mod, job)
    except (Anchor, build.BuildError): raise
    except Exception as e:                          # a construct the analysis does not know: nothing is claimed for this caller
        ch.undecided(job.name, "not analysed: %s: %s" % (type(e).__name__, str(e)[:200]))
    if os.environ.get("VERIF_NOTES"): print("\n".join(ch.notes), flush=True)
