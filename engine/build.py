"""Compile /repo's current sources to LLVM IR for the analysers (nothing is linked into an executable or run)."""
import os, subprocess, tempfile, shutil, hashlib, glob, sys
from concurrent.futures import ThreadPoolExecutor
import llvmc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ISA = {"avx512": ["-mavx512f", "-mfma"], "avx2": ["-mavx2", "-mfma"], "avx": ["-mavx"], "sse": []}

class BuildError(Exception): pass

_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        import atexit
        _tmp = tempfile.mkdtemp(prefix="verif_ir_")
        atexit.register(cleanup)
    return _tmp
_pid = os.getpid()
def cleanup():
    if _tmp and os.getpid() == _pid: shutil.rmtree(_tmp, ignore_errors=True)

def sources():
    """library translation units of the current tree"""
    out = []
    for d in ("src", "npy_array"):
        p = os.path.join(REPO, d)
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                if f.endswith(".c"): out.append(os.path.join(p, f))
    if not out: raise BuildError("no library sources found under %s" % REPO)
    return out

def incdirs():
    return ["-I" + os.path.join(REPO, d) for d in ("src", "npy_array")] + ["-I" + os.path.join(VERIF, "stubs")]

def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
    return r.stdout

PASSES = "function(sroa,simplifycfg,instsimplify,loop-simplify)"

def compile_one(src, isa, openmp=False, passes=PASSES, extra=(), ndebug=False):
    key = hashlib.sha1(("%s|%s|%s|%s|%s|%s" % (src, isa, openmp, passes, extra, ndebug)).encode()).hexdigest()[:12]
    base = os.path.join(tmpdir(), os.path.basename(src)[:-2] + "_" + key)
    ll, opt = base + ".ll", base + ".opt.ll"
    if not os.path.exists(opt):
        cmd = ["clang", "-g", "-std=c99", "-D_GNU_SOURCE", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w"] + ISA[isa] + incdirs()
        if openmp: cmd.append("-fopenmp=libomp")
        if ndebug: cmd.append("-DNDEBUG")
        cmd += list(extra) + ["-emit-llvm", "-S", src, "-o", ll]
        _run(cmd)
        if passes: _run(["opt", "-S", "-passes=" + passes, ll, "-o", opt])
        else: shutil.copy(ll, opt)
    return opt

_mods = {}
def module(isa, srcs=None, openmp=False, passes=PASSES, extra_src=(), ndebug=False):
    """one linked module of the whole library for one ISA configuration"""
    srcs = list(srcs or sources()) + list(extra_src)
    key = (isa, tuple(srcs), openmp, passes, ndebug)
    if key in _mods: return _mods[key]
    tmpdir()
    with ThreadPoolExecutor(8) as ex:
        lls = list(ex.map(lambda s: compile_one(s, isa, openmp, passes, ndebug=ndebug), srcs))
    out = os.path.join(tmpdir(), "linked_%s_%d.ll" % (isa, len(_mods)))
    _run(["llvm-link", "-S", "-o", out] + lls)
    m = llvmc.Module(out)
    m.isa = isa
    _mods[key] = m
    return m
