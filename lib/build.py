"""Builds what the checks need from /repo's current working tree.

Everything is compiled from the sources found in /repo (by globbing, not from a list); objects are cached in
/verif/.cache under a key that hashes the whole source tree, the check-side inputs and the command, so a
stale object can never be used.  The cache is only a convenience: checks run from an empty one.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, threading, time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
NCPU = max(1, min(8, os.cpu_count() or 1))
MPI_INC = "/usr/lib/x86_64-linux-gnu/mpich/include"
INC = [f"-I{REPO}/include", f"-I{REPO}/include/aux"]
COMMON_INC = [f"-I{REPO}/src/common", f"-I{REPO}/src/contrib/coefficients"]
ENV = dict(os.environ)
ENV["PATH"] = "/opt/vp/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
ENV["LANG"] = "C.UTF-8"
ENV.pop("MAKEFLAGS", None)

_sem = threading.BoundedSemaphore(NCPU)
VERBOSE = os.environ.get("VERIF_VERBOSE")


class BuildError(Exception):
    pass


class GenError(BuildError):
    """The stencil compiler refused a program it has to accept, or died."""


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()


_tree = {}


def tree_hash(kind="all"):
    """Hash of the sources a kind of artefact can depend on."""
    if kind not in _tree:
        dirs = {"all": ["include", "src/common", "src/contrib", "src/compiler", "src/kernel", "utils/bin"],
                "compiler": ["include", "src/common", "src/contrib", "src/compiler"],
                "common": ["include", "src/common", "src/contrib"],
                "gen": ["include", "src/common", "src/contrib", "src/compiler", "src/kernel", "utils/bin"]}[kind]
        fs = []
        for d in dirs:
            for r, _, names in os.walk(os.path.join(REPO, d)):
                fs += [os.path.join(r, n) for n in names
                       if n.endswith((".cpp", ".hpp", ".c", ".h", ".pl", ".pm", ".sh", ".mk", ".py")) or n == "Makefile"]
        _tree[kind] = _hash_files(fs)
    return _tree[kind]


def run(cmd, cwd=None, env=None, timeout=1500):
    with _sem:
        t0 = time.time()
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        if VERBOSE:
            print(f"[{time.time()-t0:6.1f}s] rc={p.returncode} {' '.join(cmd)[:160]}", file=sys.stderr, flush=True)
    return p.returncode, p.stdout.decode("utf8", "replace")


_locks = {}
_glock = threading.Lock()


def cached(key_parts, fn, suffix=""):
    """fn(tmpdir) builds into a directory; returns the directory."""
    key = hashlib.sha256(json.dumps(key_parts, sort_keys=True).encode()).hexdigest()[:24] + suffix
    d = os.path.join(CACHE, key)
    with _glock:
        lk = _locks.setdefault(key, threading.Lock())
    os.makedirs(CACHE, exist_ok=True)
    with lk, open(d + ".lock", "w") as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)     # other checks may share the cache
        if os.path.exists(os.path.join(d, ".ok")):
            try:
                os.utime(os.path.join(d, ".ok"))
            except OSError:
                pass
            return d
        tmp = f"{d}.tmp{os.getpid()}"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        # tools must see the final path, so build there after moving an empty dir in place.
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
        fn(d)
        open(os.path.join(d, ".ok"), "w").close()
        return d


def prune_cache(max_bytes=3 << 30):
    """Least recently used entries go first."""
    try:
        ents = []
        for n in os.listdir(CACHE):
            d = os.path.join(CACHE, n)
            ok = os.path.join(d, ".ok")
            t = os.path.getmtime(ok) if os.path.exists(ok) else os.path.getmtime(d)
            sz = sum(os.path.getsize(os.path.join(r, f)) for r, _, fs in os.walk(d) for f in fs)
            ents.append((t, sz, d))
        tot = sum(e[1] for e in ents)
        for t, sz, d in sorted(ents):
            if tot <= max_bytes or time.time() - t < 3600:
                break
            shutil.rmtree(d, ignore_errors=True)
            tot -= sz
    except OSError:
        pass


class Pool:
    """Runs build jobs concurrently; run() limits the processes.  Jobs wait for other jobs, so each of them has a
    thread of its own (a bounded pool could be exhausted by waiting jobs); leaf() is for jobs that wait for none."""
    def __init__(self):
        self.ex = cf.ThreadPoolExecutor(NCPU + 4)

    def leaf(self, fn, *a, **k):
        return self.ex.submit(fn, *a, **k)

    def go(self, fn, *a, **k):
        f = cf.Future()
        def work():
            try:
                f.set_result(fn(*a, **k))
            except BaseException as e:
                f.set_exception(e)
        threading.Thread(target=work, daemon=True).start()
        return f


POOL = Pool()


def _cc(args, out):
    rc, txt = run(args)
    if rc:
        raise BuildError(f"command failed ({rc}): {' '.join(args)}\n{txt[-6000:]}")
    return out


def compile_units(d, groups, flags, cxx="g++", prelude=""):
    """Compile groups of .cpp files, each group as one translation unit; if a group does not
    compile as one unit (e.g. clashing file-local names), its files are compiled one by one."""
    def one(i, g):
        src = os.path.join(d, f"u{i}.cpp")
        with open(src, "w") as f:
            f.write(prelude + "".join(f'#include "{p}"\n' for p in g))
        obj = os.path.join(d, f"u{i}.o")
        rc, txt = run([cxx, *flags, "-c", src, "-o", obj])
        if rc == 0:
            return [obj]
        if len(g) == 1:
            raise BuildError(f"compilation of {g[0]} failed:\n{txt[-6000:]}")
        futs = [POOL.go(one, f"{i}_{j}", [p]) for j, p in enumerate(g)]
        return [o for f in futs for o in f.result()]
    futs = [POOL.go(one, i, g) for i, g in enumerate(groups)]
    return [o for f in futs for o in f.result()]


def split(files, n):
    gs = [[] for _ in range(n)]
    sz = [0] * n
    for f in sorted(files, key=lambda p: -os.path.getsize(p)):
        i = sz.index(min(sz))
        gs[i].append(f); sz[i] += os.path.getsize(f)
    return [g for g in gs if g]


def common_files():
    return sorted(glob.glob(f"{REPO}/src/common/*.cpp")) + sorted(glob.glob(f"{REPO}/src/contrib/coefficients/fd_coeff.cpp"))


def objs(d):
    return sorted(glob.glob(os.path.join(d, "*.o")))


YC_FLAGS = ["-std=c++17", "-O0", "-w", "-fPIC"]


def common_objs(flags=("-std=c++17", "-O1", "-w", "-fPIC", "-DCHECK", "-fopenmp"), ngroups=3):
    flags = list(flags)
    return objs(cached(["common", tree_hash("common"), flags],
                  lambda d: compile_units(d, split(common_files(), ngroups), flags + INC + COMMON_INC)))


def compiler_lib(flags=None):
    flags = flags or YC_FLAGS
    inc = INC + COMMON_INC + [f"-I{REPO}/src/compiler/lib"]
    def b(d):
        f1 = POOL.go(compile_units, d, split(glob.glob(f"{REPO}/src/compiler/lib/*.cpp"), 6), flags + inc)
        f1.result()
    f0 = POOL.go(common_objs)
    d = cached(["yc-lib", tree_hash("compiler"), flags], b)
    return objs(d) + f0.result()


def yc_exe(stencils, flags=None):
    """The yask_compiler executable with the given stencil sources {name: text} and repo files."""
    flags = flags or YC_FLAGS
    inc = INC + COMMON_INC + [f"-I{REPO}/src/compiler/lib", f"-I{REPO}/src/stencils"]
    texts = dict(stencils)
    fl = POOL.go(compiler_lib, flags)
    def b(d):
        files = []
        for n, t in sorted(texts.items()):
            p = os.path.join(d, n + ".cpp")
            with open(p, "w") as f:
                f.write(t)
            files.append(p)
        groups = [[f"{REPO}/src/compiler/compiler_main.cpp"]] + split(files, min(6, len(files)))
        os_ = compile_units(d, groups, flags + inc)
        _cc(["g++", "-o", os.path.join(d, "yc.exe"), *os_, *fl.result(), "-lgomp"], None)
    d = cached(["yc-exe", tree_hash("compiler"), texts, flags], b)
    return os.path.join(d, "yc.exe")


def gen_headers(yc, yc_key, stencil, args=(), arch="avx2"):
    """Run the kernel Makefile's header generation with our own compiler executable."""
    args = list(args)
    def b(d):
        cmd = ["make", "-C", f"{REPO}/src/kernel", f"YASK_OUTPUT_DIR={d}/out", "CXX=g++", "YK_CXX=mpic++",
               "SWIG_PATCH=true", "real_bytes=8", "use_rcp=0", f"arch={arch}", f"stencil={stencil}",
               f"YC_EXEC={yc}", "-o", yc, *args, "headers"]
        rc, txt = run(cmd)
        g = glob.glob(f"{d}/out/build/kernel/yask_kernel.*/gen")
        with open(f"{d}/log.txt", "w") as f:
            f.write(txt)
        if rc or len(g) != 1:
            raise GenError(f"header generation failed for {stencil} {args}:\n{txt[-5000:]}")
        os.rename(g[0], f"{d}/gen")
        # generated files refer to nothing by absolute path.
        shutil.rmtree(f"{d}/out")
    d = cached(["gen", tree_hash("gen"), yc_key, stencil, args, arch], b)
    return os.path.join(d, "gen")


ISA = {"avx2": (["-mavx2", "-DUSE_INTRIN256", "-DUSE_AVX2"]),
       "avx": (["-mavx", "-DUSE_INTRIN256"]),
       "avx512": (["-mavx512f", "-mavx512vl", "-mavx512cd", "-mavx512bw", "-DUSE_INTRIN512"]),
       "avx512-ymm": ["-mavx512f", "-mavx512vl", "-mavx512cd", "-mavx512bw", "-DUSE_INTRIN512LO"],
       "knl": (["-march=knl", "-DUSE_INTRIN512", "-DNUMA_PREF=1"]),
       "intel64": []}


def kernel_flags(gen, arch="avx2", opt="-O0", new_vars=0, extra=(), mpi=True):
    return ["-std=c++17", opt, "-w", "-fPIC", *ISA[arch], "-fopenmp",
            *(["-DUSE_MPI"] if mpi else []),
            f"-DYK_CODE_FILE={gen}/yask_stencil_code.hpp", f"-DYK_SOLUTION_FILE={gen}/yask_solution_code.hpp",
            "-DUSE_NUMAIF_H", "-DCHECK", f"-DALLOW_NEW_VARS={new_vars}", "-DNO_SVML", "-DYASK_MC_HOOKS",
            *INC, f"-I{REPO}/src/kernel/lib", *COMMON_INC, f"-I{gen}", f"-I{MPI_INC}", *extra]


PAUSE_PRELUDE = ('#include <immintrin.h>\nextern "C" void yv_pause(void);\n'
                 '#define _mm_pause() yv_pause()\n')


def kernel_objs(gen, arch="avx2", opt="-O0", new_vars=0, extra=(), prelude=PAUSE_PRELUDE, ngroups=1, cxx="g++"):
    files = sorted(glob.glob(f"{REPO}/src/kernel/lib/*.cpp"))
    flags = kernel_flags(gen, arch, opt, new_vars, extra)
    gh = _hash_files(glob.glob(f"{gen}/*"))
    def b(d):
        compile_units(d, split(files, ngroups), flags, prelude=prelude, cxx=cxx)
    return objs(cached(["kernel", tree_hash("all"), gh, [f for f in flags if gen not in f], prelude, ngroups, cxx], b))


def cxx_obj(src_text_or_path, flags, deps=(), name="x", compiler="g++"):
    """Compile one check-side source file."""
    if os.path.exists(src_text_or_path) and len(src_text_or_path) < 300:
        with open(src_text_or_path) as f:
            text = f.read()
        path = src_text_or_path
    else:
        text, path = src_text_or_path, None
    dh = _hash_files([p for p in deps])
    def b(d):
        p = path
        if p is None:
            p = os.path.join(d, name + ".cpp")
            with open(p, "w") as f:
                f.write(text)
        _cc([compiler, *flags, "-c", p, "-o", os.path.join(d, name + ".o")], None)
    d = cached(["obj", tree_hash("all") if any("/repo" in f or REPO in f for f in flags) else "", text, flags, dh, name, compiler], b)
    return os.path.join(d, name + ".o")


# References of the linked objects to the allocator go to mc/mcrt.cpp.
GUARD = ["-Wl,--wrap=posix_memalign", "-Wl,--wrap=aligned_alloc", "-Wl,--wrap=free"]


def link(objs_, out_key, flags=(), name="exe", compiler="g++"):
    h = _hash_files(objs_)
    def b(d):
        _cc([compiler, "-o", os.path.join(d, name), *objs_, *flags], None)
    d = cached(["link", h, list(flags), out_key], b)
    return os.path.join(d, name)
