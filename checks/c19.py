import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
from spec import *
from cfg import *


def progs():
    P = []
    A, Bv = Var("A", "txy"), Var("B", "xy")
    P.append(Program(Spec("c19a", "xy", [A, Bv], [Eq(A(1, 0, 0), A(0, -1, 0) - A(0, 1, 1) + Bv(1, 0))]), ["fold=x=2,y=2"], "tune.cpp"))
    A, Bv, C, S = Var("A", "txy"), Var("B", "xy"), Var("C", "txy"), Var("S", "xy", scratch=True)
    P.append(Program(Spec("c19b", "xy", [A, Bv, C, S], [Eq(S(0, 0), A(0, 1, 0) - Bv(0, -1)), Eq(A(1, 0, 0), S(-1, 0) - S(0, 1) + C(0, 0, 0)),
                                                        Eq(C(1, 0, 0), C(0, 0, 1) - A(1, 0, -1))]), ["fold=x=2,y=2"], "tune.cpp"))
    # Conditions: only the statistics.
    x, y, t = Idx("x"), Idx("y"), Idx("t")
    A, Bv = Var("A", "txy"), Var("B", "txy")
    P.append(Program(Spec("c19c", "xy", [A, Bv], [Eq(A(1, 0, 0), A(0, -1, 0) - A(0, 0, 1), domain=((x > First("x") + 2) & (y < Last("y")))),
                                                  Eq(Bv(1, 0, 0), Bv(0, 0, 1) - A(1, 0, -1), domain=((x % 3).ne(1)))]), ["fold=x=2,y=2"], "tune.cpp"))
    A, Bv, C = Var("A", "txy"), Var("B", "txy"), Var("C", "txy")
    P.append(Program(Spec("c19d", "xy", [A, Bv, C], [Eq(A(-1, 0, 0), A(0, -1, 0) - A(0, 0, 1), step=((t % 2).eq(0))),
                                                     Eq(A(-1, 0, 0), A(0, 1, 0), step=((t % 2).ne(0)), domain=(x > First("x") + 1)),
                                                     Eq(Bv(-1, 0, 0), Bv(0, 0, 1) - A(-1, 0, -1), step=((t % 3).eq(1))),
                                                     Eq(C(-1, 0, 0), C(0, 0, 1) - 1)], dirn=-1), ["fold=x=2,y=2"], "tune.cpp"))
    return P


SMALL, MID, BIG = "-lx 6 -ly 4", "-lx 12 -ly 10", "-lx 32 -ly 40"
TILES = ["", "-Mbt 3", "-Mbt 4 -bt 2", "-bt 2", "-Mbt 2 -bt 2 -mbx 6 -nby 4", "-Mbx 6 -by 4"]
TARGETS = ["Mb", "b", "mb", "nb", "pb", "Mb,b", "Mb,b,mb,nb,pb", "mb,Mb", "pb,b,Mb"]


def lines(p, quick):
    first = p.spec.name == "c19a"
    L = []
    # Statistics.
    for n in (1, 2, 4):
        for tiles in TILES[:4]:      # with sizes that fit the extensions.
            for ops in ("1", "3,c,2", "2,g,1,4", "c,5,c,1", "1,1,c,c,7"):
                L.append(f"n={n} mode=s ops={ops} | -min_exterior 0 -gx 40 -gy 38 {tiles}")
        L.append(f"n={n} mode=s ops=3,2 | -min_exterior 0 -gx 23 -gy 17")
    if p.spec.name in ("c19c", "c19d"):
        return L

    def add(head, opts, targets, radius=2):
        at = "" if "mode=n" in head else "-auto_tune "
        L.append(f"{head} | {at}-min_exterior 0 -auto_tune_targets {targets} -auto_tune_radius {radius} {opts}")
    # All sequences of outcomes on a small domain, for each target.
    for tg in ("Mb", "mb", "nb", "pb", "b", "mb,nb"):
        for tiles in ("", "-Mbt 2 -bt 2"):
            add("mode=o k=%d" % ((3 if "," in tg else 99) if quick else 99), f"{SMALL} {tiles}", tg, 1)
    # One or two deviations from a base policy, on a larger domain, all targets and tilings.
    for tg in TARGETS:
        for tiles in TILES:
            for base in (0, 1) if len(tg) < 3 else (0,):
                k = 1 if quick or "," in tg else 2
                add(f"mode=o k={k} base={base} every=5", f"{MID} {tiles}", tg, 4 if "," not in tg else 2)
            add("mode=l k=1 every=2", f"{MID} {tiles}", tg)
            if quick and tiles not in TILES[:3]:
                continue
            add("mode=n k=1", f"{MID} {tiles}", tg)
    # Trials that need several runs.
    for tg in ("Mb", "mb", "b,nb"):
        for tiles in TILES[:3]:
            add("mode=o k=1 d0=4000000000 every=5", f"-auto_tune_trial_secs 9 {MID} {tiles}", tg)
    # Ranks tune on their own; threads; the default target.
    for n, ly in ((2, ""), (2, " ; -lx 18 ; "), (4, "")):
        if n == 4 and quick and not first:
            continue
        for tg in ("Mb", "mb", "Mb,b,mb"):
            for tiles in TILES[:3] if n == 2 else TILES[1:2]:
                for mode in "on":
                    add(f"n={n} mode={mode} k={1 if n == 2 and ly == '' else 0} every=5", f"-lx 16 -ly 16 {tiles} -nrx {2 if n == 2 else 0}{ly}", tg)
    for th, size in ((1, BIG), (4, BIG), (8, BIG)):
        for tiles in ("", "-Mbt 2 -bt 2"):
            for base in (0, 1):
                add(f"th={th} mode=o k={0 if quick else 1} base={base} every=8", f"{size} {tiles}", "b", 4)
    # Calls in between.
    for tg in ("mb", "Mb,nb"):
        for tiles in TILES[:3]:
            for i in range(0, 9 if quick else 20):
                for a in "ftp":
                    add(f"mode=o k=1 act={i}:{a} every=5", f"{MID if not quick else SMALL} {tiles}", tg, 2)
            for i in range(1, 7):
                for a, b in itertools.product("ftp", repeat=2):
                    add(f"mode=o k=0 act={i}:{a},{i + 2}:{b} every=5", f"{MID} {tiles}", tg, 2)
    return L


def main():
    chk = Check("C19")
    P = progs()
    bld = Builder(chk, P)
    jobs = [(p, lines(p, chk.quick)) for p in P]
    run_all(chk, bld, jobs, chunk=20)
    chk.assume += ["one call of run_solution() at a time; values are not judged inside run_auto_tuner_now(), which changes data by design",
                   "trials last at least one clock tick", "work repeated by neighbouring ranks in wave-front extensions is not judged"]
    chk.cov["exhaustive"] = True
    chk.cov["bounds"] = ("every outcome (slower, faster, slightly slower, as fast) of every trial on the small domains, every sequence with at most k deviations "
                         "(k in each configuration) from the base outcomes on larger ones; targets, tilings, ranks, threads and calls in lines() of checks/c19.py")
    chk.finish()


if __name__ == "__main__":
    main()
