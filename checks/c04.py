"""C04: results do not depend on thread count or schedule.
The kernel library and the generated code are compiled with memory-access instrumentation (calls of -fsanitize=thread go
to the monitor in mc/race.cpp); every team runs depth first under an enumerated assignment of chunks to threads."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import *
from spec import *
from cfg import *
import build, apispec, c01, c09, c10

TSAN = ["-fsanitize=thread", "-UCHECK", "-g1", "--param=tsan-instrument-func-entry-exit=0"]
WRAP = [f"-Wl,--wrap={f}" for f in ("memcpy", "memmove", "memset", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort")] + ["-no-pie"]
RACE = lambda: build.cxx_obj(os.path.join(MC, "race.cpp"), DRV_FLAGS, HDRS[2:])

x, y, t = Idx("x"), Idx("y"), Idx("t")


def progs():
    pick = {p.name: p for p in c01.progs() + c09.progs() + c10.progs()}
    P = [pick[n] for n in NAMES]
    api = [p for p in apispec.programs() if p.name in ("c6a", "c6d")]
    def mk(p, gen, arch, name):
        return Program(p.spec, gen, p.driver, arch, "-O0", name, p.new_vars, [*p.extra, *TSAN], link_flags=WRAP, more_objs=[RACE])
    out = [mk(p, ["fold=" + ",".join(f"{d}=1" for d in p.spec.dims)], "intel64", p.name) for p in P]
    out += [mk(p, p.gen, p.arch, p.name + "-vec") for p in P if p.name in VEC]
    out += [mk(p, p.gen, p.arch, p.name) for p in api]
    return out


VEC = ["c1b", "c1d", "c10a", "c10d"]
NAMES = ["c1a", "c1b", "c1d", "c1e", "c1f", "c10a", "c10b", "c10d", "c10e", "c10f", "c10h"]
APISIZE = "-gx 4 -gy 3 -gz 3"


def api_configs(p, quick):
    out = []
    for tv, v in [(f"var={v}", v) for v in apispec.VARS] + [(apispec.user_kv(u), u[0]) for u in apispec.USER]:
        for th, o in [(2, ""), (3, ""), (4, " -outer_threads 2 -inner_threads 2"), (6, " -outer_threads 2 -inner_threads 3"), (7, "")]:
            out.append(f"mode=slice {tv} slices={40 if quick else 900} th={th} cm=1 | {APISIZE}{o}")
    return out


def thr(quick):
    r = [(2, ""), (3, ""), (4, " -outer_threads 2 -inner_threads 2"), (4, " -outer_threads 2 -inner_threads 2 -bind_inner_threads"),
         (3, " -outer_threads 1 -inner_threads 3"), (2, " -outer_threads 1 -inner_threads 2 -bind_inner_threads"), (6, " -outer_threads 2 -inner_threads 3")]
    if not quick:
        r += [(4, ""), (6, " -outer_threads 2 -inner_threads 3 -bind_inner_threads"), (4, " -outer_threads 1 -inner_threads 4 -bind_inner_threads"), (8, " -outer_threads 4 -inner_threads 2"), (5, " -max_threads 5"), (4, " -outer_threads 3 -inner_threads 2")]
    return r


def configs(p, quick):
    if p.driver == "api.cpp":
        return api_configs(p, quick)
    sp, d = p.spec, p.spec.dirn
    dims, n = sp.dims, len(sp.dims)
    t0 = {"c1b": 1}.get(sp.name, 0)
    L = Lines()
    R = {k: runs(t0, d, k) for k in range(1, 5)}
    def add(o, r, th, ca=0, cm=1, to=0, nr=1):
        l = f"t0={t0} ops={r}" + (f" n={nr} mr=1" if nr > 1 else "") + f" th={th} to={to} cm={cm}" + (f" ca={ca}" if ca else "") + f" |{o}"
        if l not in L.seen:
            L.seen.add(l); L.l.append(l)
    shapes = {1: [[29], [16], [41]], 2: [[13, 9], [6, 17], [8, 8]], 3: [[7, 6, 5], [4, 9, 8]]}[n]
    temporal = ["", " -Mbt 2", " -bt 2", " -Mbt 3 -bt 2"] + ([] if quick else [" -Mbt 4", " -bt 3"])
    tiles = [[("b", [8] * n)], [("b", [8] * n), ("mb", [4] * n)], [("b", [4] * n)], [("Mb", [12] * n), ("b", [8] * n), ("nb", [4] * n)],
             [("b", [16] * n), ("mb", [8] * n), ("nb", [4] * n)]]
    for g in shapes[: 2 if quick else 3]:
        for T in temporal:
            for lv in tiles:
                for th, inner in thr(quick):
                    for cm, to in ([(1, 0), (0, 1)] if quick else [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1)]):
                        add(opts(dims, g, lv, T) + inner, R[3][0], th, cm=cm, to=to)
    # Every assignment of the first chunks to two or three threads.
    for g in shapes[:1] if quick else shapes:
        for T in temporal[:3] if quick else temporal:
            for lv in tiles[:1] if quick else tiles[:4]:
                for th, k in [(2, 6), (3, 4)] if quick else [(2, 9), (3, 6), (4, 4)]:
                    add(opts(dims, g, lv, T), R[2][0], th, ca=k)
    # Ranks: packing, unpacking, exterior and interior.
    for nr in (2,) if quick else (2, 4):
        for lay in grids(nr, n)[: 2 if quick else 9]:
            g = [40, 17, 14][:n]
            for o in [" -min_exterior 0", " -no-overlap_comms", " -Mbt 2 -min_exterior 0", " -no-use_shm -bt 2 -min_exterior 0"]:
                for th, inner in thr(True)[: 4 if quick else 9]:
                    add(opts(dims, g, [("b", [8] * n)]) + dimopt("nr", dims, lay) + o + inner, R[3][1], th, nr=nr)
    for o in [" -no-bundle_allocs", " -init_scratch_vars", " -force_scalar", " -ep 3"]:
        for th, inner in thr(True)[:4]:
            add(opts(dims, shapes[0], [("b", [8] * n)]) + o + inner, R[2][0], th)
    return L.l


def main():
    chk = Check("C04")
    P = progs()
    bld = Builder(chk, P)
    jobs = [(p, configs(p, chk.quick)) for p in P]
    chk.log("configurations:", {p.name: len(l) for p, l in jobs})
    run_all(chk, bld, [(p, l) for p, l in jobs], chunk=60)
    chk.assume += ["threads of one team are ordered only by the team's begin and end, critical sections, locks and atomic operations",
                   "sequentially consistent memory; memory obtained from the allocator is private until published",
                   "accesses inside uninstrumented library functions other than memcpy/memmove/memset are not seen"]
    chk.cov["exhaustive"] = True
    chk.cov["bounds"] = "programs, thread counts and configurations listed by progs()/configs() in checks/c04.py; all assignments of the first 4-9 dynamic chunks"
    chk.finish()


if __name__ == "__main__":
    main()
