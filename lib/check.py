"""Framework of a check: build programs, run enumerated configurations in shards, replay, report, evidence."""
import json, os, re, signal, subprocess, sys, threading, time, hashlib, shutil, tempfile
import build as B
import spec as S

VERIF = B.VERIF
MC = os.path.join(VERIF, "mc")
HDRS = [os.path.join(MC, h) for h in ("drv.hpp", "ref.hpp", "mcrt.hpp")]
DRV_FLAGS = ["-std=c++17", "-O1", "-w", f"-I{MC}", *B.INC, f"-I{B.MPI_INC}"]


def load_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(json.loads(l))
    return out


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.quick = self.tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.extra = {}
        self.assume = []
        self.viol = []          # (key, what, replay)
        self.known = {}
        self.lock = threading.Lock()
        self.state_hashes = set()
        self.work = tempfile.mkdtemp(prefix=f"yv_{pid}_")
        self.findings = [f for f in load_findings() if f.get("property") == pid and f.get("status") == "open"]
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)

    # ---- results ----
    def count(self, **kw):
        with self.lock:
            for k, v in kw.items():
                if k in ("states", "transitions", "traces_validated_against_impl"):
                    self.cov[k] += v
                else:
                    self.extra[k] = self.extra.get(k, 0) + v

    def sample(self, s):
        with self.lock:
            if len(self.cov["samples"]) < 12:
                self.cov["samples"].append(s)

    def violation(self, key, what, replay):
        """key identifies the failing input/call site/history for the known-findings file."""
        with self.lock:
            for f in self.findings:
                if re.search(f["match"], key + " :: " + what):
                    self.known.setdefault(f["what"], 0)
                    self.known[f["what"]] += 1
                    return
            if len(self.viol) < 20:
                self.viol.append((key, what, replay))

    def log(self, *a):
        print(f"[{time.time()-self.t0:6.1f}s]", *a, flush=True)

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        if self.state_hashes:
            self.cov["states"] += len(self.state_hashes)
        self.cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for w, n in sorted(self.known.items()):
            print(f"KNOWN-FINDING: property={self.pid} {w} ({n} executions)")
        for i, (key, what, replay) in enumerate(self.viol):
            p = os.path.join(VERIF, "evidence", "replay", f"{self.pid}-{i}.json")
            with open(p, "w") as f:
                json.dump({"property": self.pid, "key": key, "what": what, **replay}, f, indent=1)
            print(f"  {key}: {what}"[:600])
            print(f"VIOLATION property={self.pid} replay={p}")
        print(f"{self.pid} {self.tier}: " + ", ".join(f"{k}={v}" for k, v in self.cov.items() if isinstance(v, (int, float))) +
              f" wall={ev['wall_s']}s violations={len(self.viol)}")
        B.prune_cache()
        sys.stdout.flush()
        sys.exit(1 if self.viol else 0)


class Program:
    """A spec compiled for one target/fold/option set and linked with a driver."""
    def __init__(self, spec, gen=("fold=x=2,y=2",), driver="grid.cpp", arch="avx2", opt="-O0", name=None, new_vars=0,
                 extra=(), mcrt_flags=(), kernel_prelude=None, drv_flags=(), link_flags=(), suffix="", more_objs=()):
        self.spec, self.gen, self.driver, self.arch, self.opt = spec, list(gen), driver, arch, opt
        self.new_vars, self.extra = new_vars, list(extra)
        self.name = name or (spec.name + suffix)
        self.drv_flags, self.link_flags = list(drv_flags), list(link_flags)
        self.prelude = kernel_prelude or B.PAUSE_PRELUDE
        self.more_objs = list(more_objs)
        self.exe = None


class Builder:
    """Builds all programs of a check with a single compiler executable."""
    def __init__(self, chk, programs, extra_dsl=None):
        self.chk, self.programs = chk, programs
        specs, seen = [], set()
        for p in programs:
            if p.spec.name not in seen:
                seen.add(p.spec.name); specs.append(p.spec)
        # A few translation units so they compile in parallel.
        n = max(1, min(4, len(specs) // 4))
        self.files = {f"specs{i}": S.dsl_file(specs[i::n]) for i in range(n)}
        if extra_dsl:
            self.files.update(extra_dsl)
        self.ykey = hashlib.sha256(json.dumps(self.files, sort_keys=True).encode()).hexdigest()
        self.common = B.POOL.go(B.common_objs)
        self.yc = B.POOL.go(B.yc_exe, self.files)
        self.drv = {}
        self.mcrt = B.POOL.go(B.cxx_obj, os.path.join(MC, "mcrt.cpp"), DRV_FLAGS, HDRS[2:])
        self.futs = {p.name: B.POOL.go(self._one, p) for p in programs}

    def _driver(self, p):
        k = (p.driver, tuple(p.drv_flags))
        with self.chk.lock:
            if k not in self.drv:
                self.drv[k] = B.POOL.go(B.cxx_obj, os.path.join(MC, p.driver), DRV_FLAGS + p.drv_flags, HDRS)
            return self.drv[k]

    def _one(self, p):
        drv = self._driver(p)
        ref = B.POOL.go(B.cxx_obj, p.spec.ref(), DRV_FLAGS, HDRS[1:2])
        g = B.gen_headers(self.yc.result(), self.ykey, p.spec.name, p.gen, p.arch)
        ko = B.kernel_objs(g, arch=p.arch, opt=p.opt, new_vars=p.new_vars, extra=p.extra, prelude=p.prelude)
        more = [f() for f in p.more_objs]
        p.exe = B.link(ko + [drv.result(), self.mcrt.result(), ref.result()] + more + self.common.result(),
                       "drv", flags=[*B.GUARD, *p.link_flags])
        return p

    def get(self, p):
        return self.futs[p.name].result()


def _run_proc(cmd, inp, timeout, env=None):
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, env=env)
    try:
        out, err = p.communicate(inp.encode(), timeout=timeout)
        return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace"), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        return -9, out.decode("utf8", "replace"), err.decode("utf8", "replace"), True


_sid = [0]


def run_shard(chk, exe, lines, progname, timeout=400, args=(), env=None):
    """Feed configuration lines to a driver; returns parsed stats. Failures and crashes are replayed alone."""
    with chk.lock:
        _sid[0] += 1
        prog = os.path.join(chk.work, f"p{_sid[0]}")
    with B._sem:
        rc, out, err, to = _run_proc([exe, prog, prog + ".h", *args], "\n".join(lines) + "\n", timeout, env)
    for l in out.splitlines():
        if l.startswith("FAIL "):
            body, _, what = l[5:].partition(" => ")
            confirm(chk, exe, body, what, progname, lines, args, env)
        elif l.startswith("STATS "):
            kv = dict(x.split("=") for x in l.split()[1:])
            d = {k: int(v) for k, v in kv.items()}
            m = {"configs": "traces_validated_against_impl", "runs": "transitions"}
            chk.count(**{m.get(k, k): v for k, v in d.items()})
    if rc not in (0, 1) or to:
        cfg = ""
        try:
            cfg = open(prog, "rb").read().split(b"\0")[0].decode()
        except OSError:
            pass
        if rc == 3 or not cfg or cfg == "done":
            raise RuntimeError(f"driver {progname} failed (rc={rc}): {err[-2000:]}")
        what = "did not finish" if to else f"died with signal {-rc}" if rc < 0 else f"exited with {rc}"
        confirm(chk, exe, cfg, what + ": " + err.strip().replace("\n", " ")[-400:], progname, lines, args, env)
    try:
        import array
        a = array.array("Q")
        data = open(prog + ".h", "rb").read()
        a.frombytes(data[: len(data) // 8 * 8])
        with chk.lock:
            chk.state_hashes.update(a)
        os.unlink(prog + ".h")
    except OSError:
        pass


def confirm(chk, exe, cfg, what, progname, lines, args, env):
    """Replay before report."""
    with chk.lock:
        if len(chk.viol) >= 5:
            return
    for attempt in range(2):
        rc, out, err, to = _run_proc([exe, os.path.join(chk.work, "replay"), "/dev/null", *args], cfg + "\n", 200, env)
        if to:
            return chk.violation(f"{progname} | {cfg}", "run does not terminate", rep(chk, progname, [cfg]))
        if rc < 0 or rc > 1:
            w = f"died with signal {-rc}" if rc < 0 else f"exited with {rc}"
            return chk.violation(f"{progname} | {cfg}", w + ": " + err.strip().replace("\n", " ")[-400:], rep(chk, progname, [cfg]))
        if rc == 1:
            m = re.search(r"^FAIL .*? => (.*)$", out, re.M)
            return chk.violation(f"{progname} | {cfg}", m.group(1) if m else what, rep(chk, progname, [cfg]))
    # Not reproducible alone: replay the sequence that led to it.
    i = lines.index(cfg) if cfg in lines else len(lines) - 1
    seq = lines[: i + 1]
    rc, out, err, to = _run_proc([exe, os.path.join(chk.work, "replay"), "/dev/null", *args], "\n".join(seq) + "\n", 600, env)
    if to or rc != 0:
        return chk.violation(f"{progname} | {cfg}", what + " (only after the preceding configurations)", rep(chk, progname, seq))
    raise RuntimeError(f"{progname}: failure of '{cfg}' could not be replayed: {what}")


def rep(chk, progname, lines):
    return {"program": progname, "stdin": lines, "how": f"./run {chk.pid} --replay <this file>"}


def run_all(chk, builder, jobs, chunk=400, timeout=400, args=()):
    """jobs: [(program, [config lines])].  Chunks are interleaved so each shard is about equally hard."""
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        jobs = [(p, replay["stdin"]) for p, l in jobs if p.name == replay["program"]]
    futs = []
    def one(p, lines):
        try:
            builder.get(p)
        except B.GenError as e:
            txt = [l for l in str(e).splitlines() if "rror" in l or "xception" in l]
            chk.violation(f"{p.name} | compile", "the stencil compiler rejects this program: " + " ".join(txt)[-400:], rep(chk, p.name, lines[:1]))
            return []
        n = max(1, (len(lines) + chunk - 1) // chunk)
        return [B.POOL.leaf(run_shard, chk, p.exe, lines[i::n], p.name, timeout, args) for i in range(n)]
    outer = [B.POOL.go(one, p, l) for p, l in jobs]
    for p, l in jobs:
        if l:
            chk.sample(f"{p.name} [{' '.join(p.gen)}]: {l[len(l) // 2]}")
    for f in outer:
        for g in f.result():
            g.result()


class Plain:
    """A driver that is not a compiled stencil; 'make' returns the path of its executable."""
    def __init__(self, name, make, gen=()):
        self.name, self.make, self.gen, self.exe = name, make, list(gen), None


class PlainBuilder:
    def __init__(self, plains):
        self.futs = {p.name: B.POOL.go(p.make) for p in plains}

    def get(self, p):
        p.exe = self.futs[p.name].result()
        return p
