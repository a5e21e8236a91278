import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
from spec import *
from cfg import *

x, y, z, t = Idx("x"), Idx("y"), Idx("z"), Idx("t")
fx, lx, fy, ly = First("x"), Last("x"), First("y"), Last("y")


def spec2():
    A, Bv, C, D, E_, F, K = (Var("A", "txy"), Var("B", "tyx"), Var("C", "x"), Var("D", ["y", "m"]), Var("E", []),
                             Var("F", ["t", "m", "x", "y"]), Var("K", []))
    S = Var("S", "xy", scratch=True)
    return Spec("c5a", "xy", [A, Bv, C, D, E_, F, K, S], [
        Eq(S(0, 0), A(0, -1, 2) + C(1)),
        Eq(A(1, 0, 0), A(0, 0, 0) - A(0, 0, -3) + A(0, 2, 1) + S(0, -1) - S(0, 1) + F(0, 1, 0, 0) + D(1, 0)),
        Eq(Bv(1, 0, 0), Bv(0, 0, 1) + A(1, 0, -2) * 2 - E_() + A(0, 0, 2), domain=(x > fx + 1)),
        Eq(Bv(1, 0, 0), Bv(0, 0, 0) + D(-2, 2) * K(), domain=(x <= fx + 1)),
        Eq(F(1, 0, 0, 0), F(0, 2, -1, 3) + A(1, 1, 0) - F(0, 0, 0, -1)),
        Eq(F(1, 1, 0, 0), F(0, 1, 0, 0) - F(0, 0, 0, 0)),
        Eq(F(1, 2, 0, 0), F(0, 2, 1, 0) + Bv(1, -1, 0))])


def spec3():
    A, W, G, K = Var("A", "txyz"), Var("W", "txyz"), Var("G", "zx"), Var("K", [])
    return Spec("c5b", "xyz", [A, W, G, K], [
        Eq(A(1, 0, 0, 0), A(0, 0, 0, 0) + A(0, -1, 0, 0) + A(0, 0, 2, 0) - A(0, 0, 0, 3) - A(0, 0, 0, -1) + G(0, 0) - G(1, -1) * K()),
        Eq(W(1, 0, 0, 0), W(0, 0, 0, 0) + A(1, 1, -1, 0) - A(0, 0, 0, 1))])


def spec1():
    A, Bv = Var("A", "tx"), Var("B", "tx")
    return Spec("c5c", "x", [A, Bv], [
        Eq(A(1, 0), A(0, 0) + A(0, 5) - A(0, 2) - A(0, -1) + A(0, -6) + Bv(0, 1)),
        Eq(Bv(1, 0), Bv(0, 0) + A(1, 3) - A(1, -3))])


SPECS = {"c5a": spec2(), "c5b": spec3(), "c5c": spec1()}


def folds(vlen, dims):
    out = []
    for f in grids(vlen, len(dims)):
        out.append("fold=" + ",".join(f"{d}={v}" for d, v in zip(dims, f)))
    return out


def cpu(flag):
    return flag in open("/proc/cpuinfo").read().split()


SINGLE = ["first_inner=0", "outer_domain_layout=1", "inner_misc_layout=0", "use_ptrs=0", "use_safe_ptrs=1", "early_loads=0",
          "min_buffer_len=0", "min_buffer_len=3", "min_buffer_len=99", "pfd_l1=1 pfd_l2=0", "pfd_l1=2 pfd_l2=5", "halo=4", "step_alloc=3",
          "domain_dims=REV", "EXTRA_YC_FLAGS=-no-bundle -no-bundle-scratch", "EXTRA_YC_FLAGS=-no-opt-cse -no-opt-comb",
          "EXTRA_YC_FLAGS=-opt-reorder -max-es 3 -min-es 1", "EXTRA_YC_FLAGS=-max-es 10000 -min-es 10000",
          "MEGA_BLOCK_LOOP_MODS=serpentine MICRO_BLOCK_LOOP_MODS=square_wave",
          "PICO_BLOCK_LOOP_MODS=square_wave", "NANO_BLOCK_LOOP_MODS=nested", "EXTRA_LOOP_FLAGS=-no-align"]


def variants(quick):
    """[(spec name, arch, [make args])]"""
    V = []
    def add(s, arch, *a):
        dims = SPECS[s].dims
        args = []
        for k in a:
            k = k.replace("REV", ",".join(dims[::-1]))
            if "EXTRA_YC_FLAGS" in k or "EXTRA_LOOP" in k:
                args.append(k)
            else:
                args += k.split(" ")
        v = (s, arch, args)
        if v not in V:
            V.append(v)
    # every fold x inner-loop dim.
    for s in ("c5a", "c5b"):
        n = len(SPECS[s].dims)
        for f in folds(4, SPECS[s].dims):
            for d in range(1, n + 1):
                if quick and n == 3 and (folds(4, "xyz").index(f) + d) % 2:
                    continue
                add(s, "avx2", f, f"inner_loop_dim={d}")
    base = {"c5a": "fold=x=2,y=2", "c5b": "fold=x=1,y=2,z=2", "c5c": "fold=x=4"}
    alt = {"c5a": "fold=x=1,y=4", "c5b": "fold=x=2,y=1,z=2", "c5c": "fold=x=4"}
    # every single deviation from the defaults.
    for i, o in enumerate(SINGLE):
        if quick:
            s = ["c5a", "c5b"][i % 2] if "misc" not in o else "c5a"
            if s == "c5b" and "min_buffer" in o:
                s = "c5c"
            add(s, "avx2", base[s], o)
        else:
            for s in SPECS:
                if s == "c5c" and "domain_dims" in o:
                    continue
                add(s, "avx2", base[s], o)
                if s != "c5c":
                    add(s, "avx2", alt[s], o)
    # 1-D folds with unaligned loads.
    add("c5c", "avx2", "fold=x=4", "EXTRA_YC_FLAGS=-ul")
    add("c5a", "avx2", "fold=x=1,y=4", "EXTRA_YC_FLAGS=-ul", "use_ptrs=0", "inner_misc_layout=0")
    add("c5b", "avx2", "fold=x=1,y=1,z=4", "EXTRA_YC_FLAGS=-ul")
    # other targets and the other element size.
    add("c5a", "avx", "fold=x=2,y=2"); add("c5b", "avx", "fold=x=4,y=1,z=1")
    add("c5a", "intel64"); add("c5b", "intel64", "fold=x=2,y=1,z=2", "inner_loop_dim=1"); add("c5a", "intel64", "fold=x=3,y=2", "first_inner=0")
    add("c5a", "avx2", "real_bytes=4", "fold=x=2,y=4"); add("c5b", "avx2", "real_bytes=4", "fold=x=2,y=2,z=2", "first_inner=0")
    if not quick:
        for a, n in (("avx", 4), ("intel64", 4), ("intel64", 6)):
            for s in ("c5a", "c5b"):
                for f in folds(n, SPECS[s].dims):
                    add(s, a, f); add(s, a, f, "first_inner=0", "use_ptrs=0")
        for s in ("c5a", "c5b"):
            for f in folds(8, SPECS[s].dims):
                add(s, "avx2", "real_bytes=4", f)
    if cpu("avx512f") and cpu("avx512vl") and cpu("avx512bw") and cpu("avx512cd"):
        fs = folds(8, "xy")
        for f in fs if not quick else fs[:3]:
            add("c5a", "avx512", f)
        fs = folds(8, "xyz")
        for f in fs if not quick else ["fold=x=2,y=2,z=2"]:
            add("c5b", "avx512", f, "inner_loop_dim=2")
        add("c5c", "avx512", "fold=x=8"); add("c5c", "avx512", "fold=x=8", "EXTRA_YC_FLAGS=-ul")
        add("c5a", "avx512-ymm", "fold=x=2,y=2"); add("c5b", "avx512", "real_bytes=4", "fold=x=4,y=2,z=2")
        if not quick:
            for f in folds(16, "xy"):
                add("c5a", "avx512", "real_bytes=4", f)
            for f in folds(4, "xyz"):
                add("c5b", "avx512-ymm", f)
    # Pairs of options.
    if not quick:
        for a, b in itertools.combinations(SINGLE, 2):
            ka, kb = a.split("=")[0], b.split("=")[0]
            if ka == kb:
                continue
            s = ["c5a", "c5b"][(SINGLE.index(a) + SINGLE.index(b)) % 2]
            add(s, "avx2", base[s], a, b)
    return V


def configs(p, quick):
    sp = p.spec
    dims, n = sp.dims, len(sp.dims)
    L = Lines()
    R = {k: runs(0, 1, k) for k in range(1, 6)}
    if n == 1:
        for g in range(1, 40):
            L.add(opts(dims, [g], []), R[3][0])
            for th in ([("b", [8])], [("mb", [16]), ("nb", [8])], [("pb", [8])]):
                L.add(opts(dims, [g], th), R[2][0])
        for g in (17, 31, 40):
            L.add(opts(dims, [g], [("Mb", [16])], " -Mbt 2"), R[4][0])
    else:
        mx = {2: 9, 3: 5}[n] if quick else {2: 18, 3: 9}[n]
        for g in itertools.product(range(1, mx + 1), repeat=n):
            L.add(opts(dims, g, []), R[2][0])
            if sum(g) % 3 == 0:
                L.add(opts(dims, g, [("b", [4] * n), ("pb", [2] * n)]), R[2][0])
        for g in [[17, 19, 9][:n], [8, 24, 8][:n], [16, 6, 17][:n]]:
            for b in ([], [("b", [8] * n)], [("nb", [8] * n), ("pb", [4] * n)], [("mb", [16, 8, 4][:n])], [("Mb", [8] * n), ("b", [4] * n)]):
                for T in ("", " -Mbt 2", " -force_scalar", " -ep 3", " -no-allow_addl_padding"):
                    L.add(opts(dims, g, b, T), R[2][0])
            L.add(opts(dims, g, [("b", [8] * n)]), R[2][0], th=2)
            for d in dims:
                L.add(opts(dims, g, []) + f" -nr{d} 2", R[2][0], n=2)
    return L.l


def main():
    chk = Check("C05")
    V = variants(chk.quick)
    P = []
    for i, (s, arch, args) in enumerate(V):
        P.append(Program(SPECS[s], args, arch=arch, name=f"{s}/{arch}/{' '.join(args)}"))
    bld = Builder(chk, P)
    jobs = [(p, configs(p, chk.quick)) for p in P]
    chk.log(f"{len(P)} generated programs, {sum(len(l) for _, l in jobs)} configurations")
    run_all(chk, bld, jobs, chunk=10000)
    chk.count(generated_programs=len(P))
    chk.assume += ["integer-valued data: exact arithmetic, so 'up to rounding' is equality",
                   "kernel compiled with -O0 and CHECK; targets run on this CPU (avx, avx2, avx512, avx512-ymm, intel64)"]
    chk.cov["exhaustive"] = True
    chk.cov["bounds"] = "every fold x inner-loop dimension, every single deviation from the default generator options (thorough: every pair), per program; see variants()/configs() in checks/c05.py"
    chk.finish()


if __name__ == "__main__":
    main()
