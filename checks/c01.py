import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
from spec import *
from cfg import *


def progs():
    P = []
    # one stage, corner reads, asymmetric halos.
    A = Var("A", "txy")
    P.append(Program(Spec("c1a", "xy", [A], [Eq(A(1, 0, 0), A(0, 0, 0) + 2 * A(0, -1, 1) - A(0, 2, -1) + 1)]),
                     ["fold=x=2,y=2"]))
    # two stages in a step, older steps, stage 2 reads stage 1's new values at neighbours.
    A, Bv = Var("A", "txy"), Var("B", "txy")
    P.append(Program(Spec("c1b", "xy", [A, Bv], [
        Eq(Bv(1, 0, 0), Bv(0, 0, 0) + A(0, 1, 0) - A(-1, 0, -1)),
        Eq(A(1, 0, 0), A(0, 0, 0) + Bv(1, -1, 1) - 2 * Bv(0, 1, 0))]), ["fold=y=4"]))
    # 1-D, halo only on one side, wider than a vector.
    A = Var("A", "tx")
    P.append(Program(Spec("c1c", "x", [A], [Eq(A(1, 0), A(0, 0) - A(0, -5) + 2 * A(0, -1))]), ["fold=x=4"]))
    # 3-D, reverse time.
    A = Var("A", "txyz")
    P.append(Program(Spec("c1d", "xyz", [A], [Eq(A(-1, 0, 0, 0), A(0, 0, 0, 0) + A(0, 1, 0, -1) - A(0, 0, -1, 1) + 2 * A(0, -1, 0, 0))],
                          dirn=-1), ["fold=x=1,y=2,z=2"]))
    # misc indices, step-less and scalar and partial-dim vars, several equations per stage.
    A, C, K, Q = Var("A", ["t", "x", "y", "m"]), Var("C", ["x", "y"]), Var("K", ["y"]), Var("Q", [])
    P.append(Program(Spec("c1e", "xy", [A, C, K, Q], [
        Eq(A(1, 0, 0, -1), A(0, 0, 0, -1) + A(0, 1, 0, 2) - C(0, -1)),
        Eq(A(1, 0, 0, 2), A(0, -1, 0, -1) - A(0, 0, 0, 2) + K(0) + Q())]), ["fold=x=4"]))
    # three stages, each consuming the previous one with a halo; 1-D along y.
    A, Bv, C = Var("A", "tx"), Var("B", "tx"), Var("C", "tx")
    P.append(Program(Spec("c1f", "x", [A, Bv, C], [
        Eq(Bv(1, 0), Bv(0, 0) + A(0, 1) - A(0, -1)),
        Eq(C(1, 0), C(0, 0) - Bv(1, 2) + Bv(0, 0)),
        Eq(A(1, 0), A(0, 0) + C(1, -1) + C(1, 1))]), ["fold=x=2,y=1"] if False else ["fold=x=4"]))
    return P


def configs(p, quick):
    sp, d = p.spec, p.spec.dirn
    dims = sp.dims
    n = len(dims)
    t0 = {"c1b": 1}.get(sp.name, 0)
    out = []
    seen = set()
    def add(o, ops):
        l = f"t0={t0} ops={ops} |{o}"
        if l not in seen:
            seen.add(l); out.append(l)
    R = {k: runs(t0, d, k) for k in range(1, 7)}
    if n == 1:
        # Every domain size, every pair of levels, every temporal setting.
        gs = list(range(1, 14)) + [16, 17, 23, 24, 25, 31, 32, 33] if quick else range(1, 50)
        for g in gs:
            for sz in itertools.product([0, 4, 8], repeat=3):
                for lv in itertools.combinations(LEVELS, 3) if not quick else [("Mb", "b", "mb"), ("b", "nb", "pb"), ("mb", "nb", "pb")]:
                    add(opts(dims, [g], [(l, [s]) for l, s in zip(lv, sz)]), R[2][0])
            for T in temporal_set(quick):
                for Mb, b, mb in itertools.product([0, 4, 8, 12, 16], [0, 4, 8], [0, 4]):
                    for k in ([5] if quick else [2, 4, 5, 6]):
                        add(opts(dims, [g], [("Mb", [Mb]), ("b", [b]), ("mb", [mb])], T), R[k][0])
            for k in range(1, 7):
                for r in R[k]:
                    for T in ["", " -Mbt 2 -Mbx 8", " -Mbt 3 -bt 2 -bx 8"]:
                        add(opts(dims, [g], [], T), r)
    else:
        fold = {"c1a": (2, 2), "c1b": (1, 4), "c1d": (1, 2, 2), "c1e": (4, 1)}[sp.name]
        mx = {2: 9, 3: 5}[n] if quick else {2: 14, 3: 7}[n]
        # All domain shapes, default tiles, all run splits.
        for g in itertools.product(range(1, mx + 1), repeat=n):
            add(opts(dims, g, []), R[2][0])
            add(opts(dims, g, [("b", fold)]), R[2][1])
            add(opts(dims, g, [("nb", fold), ("mb", [2 * f for f in fold])]), R[2][0])
        # All pairs of levels with all small tile vectors, on shapes with every kind of remainder.
        shapes = [[2 * f + f // 2 + 1 for f in fold], [3 * f for f in fold], [5, 7, 4][:n], [4 * f - 1 for f in fold][::-1]]
        tiles = [t for t in itertools.product(*[[0, f, 2 * f, 3] for f in fold])]
        if quick and n == 3:
            tiles = [t for t in itertools.product(*[[0, f, 2 * f] for f in fold])]
            shapes = shapes[:2]
        for g in shapes:
            for l1, l2 in itertools.combinations(LEVELS, 2):
                for s1, s2 in itertools.product(tiles, repeat=2):
                    add(opts(dims, g, [(l1, s1), (l2, s2)]), R[2][0])
        # Temporal tiling x spatial sizes of mega-blocks, blocks and micro-blocks.
        tshapes = [[9, 11, 5][:n], [4, 17, 4][:n], [16, 6, 3][:n], [13, 13, 6][:n]]
        sizes = [0, 4, 8] if n < 3 else [0, 2, 4]
        for g in tshapes[: 2 if n == 3 and quick else 4]:
            for T in temporal_set(quick):
                for s1 in itertools.product(sizes, repeat=n):
                    for s2 in itertools.product(sizes[:2] if quick else sizes, repeat=n):
                        for mb in ([0] if quick else [0, 4]):
                            add(opts(dims, g, [("Mb", s1), ("b", s2), ("mb", [mb] * n)], T), R[5][0])
            for k in range(1, 6):
                for r in R[k]:
                    for T in ["", " -Mbt 2 -Mb 4", " -Mbt 3 -bt 2 -b 4", " -bt 2 -b 8"]:
                        add(opts(dims, g, [], T), r)
    # Temporal blocking with blocks wide enough for several steps, and every size of the remainder block.
    if n == 1:
        a, st = {"c1c": (5, 1), "c1f": (2, 3)}[sp.name]
        for bt in (2, 3) if quick else (2, 3, 4):
            bmin = 4 + 2 * a * (st * bt - 1)
            bmin += -bmin % 4
            for b in (bmin, bmin + 4) if quick else (bmin - 4, bmin, bmin + 4, bmin + 12):
                for g in range(b + 1, 2 * b + b // 2 + 2, 1 if not quick else (2 if bt > 2 else 1)):
                    for M, Mb in [(0, 0), (2 * bt, 0), (2 * bt, 2 * b), (bt + 1, b + 8)]:
                        for mb in (0, 4) if quick else (0, 4, 12):
                            add(opts(dims, [g], [("b", [b]), ("mb", [mb]), ("Mb", [Mb])],
                                     f" -bt {bt}" + (f" -Mbt {M}" if M else "")), R[4][0])
    else:
        a, st = {"c1a": ((2, 1), 1), "c1b": ((1, 1), 2), "c1d": ((1, 1, 1), 1), "c1e": ((1, 1), 1)}[sp.name]
        for bt in (2, 3) if quick else (2, 3, 4):
            b = [f + 2 * k * (st * bt - 1) for f, k in zip(fold, a)]
            b = [v + -v % f for v, f in zip(b, fold)]
            for bb in [b, [v + f for v, f in zip(b, fold)]] if quick else [b, [v + f for v, f in zip(b, fold)], [v + 2 * f for v, f in zip(b, fold)]]:
                rs = [range(1, v + 1, (2 if n == 2 else 3) if quick else 1) for v in bb]
                for rem in itertools.product(*rs):
                    for M, mb in [(0, 0), (2 * bt, 4)]:
                        add(opts(dims, [v + r for v, r in zip(bb, rem)], [("b", bb), ("mb", [mb] * n)],
                                 f" -bt {bt}" + (f" -Mbt {M}" if M else "")), R[4 if n < 3 or not quick else bt][0])
    for o in ["", " -force_scalar", " -ep 3", " -mp 7", " -no-bundle_allocs", " -round_up_temporal_angles",
              " -no-allow_addl_padding"]:
        for T in ["", " -Mbt 3 -bt 2 -b 4", " -Mbt 2 -Mb 4"]:
            g = [11, 9, 6][:n]
            add(opts(dims, g, [("b", [8] * n)]) + o + T, R[5][0])
    return out


def main():
    chk = Check("C01")
    P = progs()
    bld = Builder(chk, P)
    jobs = [(p, configs(p, chk.quick)) for p in P]
    chk.log("configurations:", {p.name: len(l) for p, l in jobs})
    run_all(chk, bld, jobs)
    chk.assume += ["integer-valued data in doubles: exact arithmetic", "single rank, OpenMP threads executed one after another",
                   "kernel compiled with -O0 and CHECK for avx2"]
    chk.cov["exhaustive"] = True
    chk.cov["bounds"] = "domain sizes, tile sizes, temporal depths and run splits listed by configs() in checks/c01.py"
    chk.finish()


if __name__ == "__main__":
    main()
