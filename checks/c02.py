import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
from spec import *
from cfg import *


x, y, t = Idx("x"), Idx("y"), Idx("t")
fx, lx, ly = First("x"), Last("x"), Last("y")


def progs():
    P = []
    A = Var("A", "txy")    # corners, asymmetric.
    P.append(Program(Spec("c2a", "xy", [A], [Eq(A(1, 0, 0), A(0, 0, 0) + 2 * A(0, -1, 1) - A(0, 2, -1) + 1)]), ["fold=x=2,y=2"]))
    A, Bv, C, K = Var("A", "txy"), Var("B", "txy"), Var("C", "xy"), Var("K", "y")   # two stages, step-less and 1-D vars with halos.
    P.append(Program(Spec("c2b", "xy", [A, Bv, C, K], [
        Eq(Bv(1, 0, 0), Bv(0, 0, 0) + A(0, 1, 0) - A(-1, 0, -1) + C(1, -1) - K(2)),
        Eq(A(1, 0, 0), A(0, 0, 0) + Bv(1, -1, 1) - 2 * Bv(0, 1, 0))]), ["fold=x=1,y=4"]))
    A = Var("A", "tx")     # one-sided halo wider than a vector.
    P.append(Program(Spec("c2c", "x", [A], [Eq(A(1, 0), A(0, 0) - A(0, -5) + 2 * A(0, -1))]), ["fold=x=4"]))
    A = Var("A", "txyz")   # 3-D, reverse, edges but no corners.
    P.append(Program(Spec("c2d", "xyz", [A], [Eq(A(-1, 0, 0, 0), A(0, 0, 0, 0) + A(0, 1, 0, -1) - A(0, 0, -1, 1) + 2 * A(0, -1, 0, 0))],
                          dirn=-1), ["fold=x=1,y=2,z=2"]))
    A, C = Var("A", ["t", "x", "y", "m"]), Var("C", ["x", "m"])  # misc indices.
    P.append(Program(Spec("c2e", "xy", [A, C], [
        Eq(A(1, 0, 0, -1), A(0, 0, 0, -1) + A(0, 1, 0, 2) - C(-1, 3)),
        Eq(A(1, 0, 0, 2), A(0, -1, -1, -1) - A(0, 0, 0, 2))]), ["fold=x=4,y=1"]))
    A, Bv, C = Var("A", "tx"), Var("B", "tx"), Var("C", "tx")  # three stages.
    P.append(Program(Spec("c2f", "x", [A, Bv, C], [
        Eq(Bv(1, 0), Bv(0, 0) + A(0, 1) - A(0, -1)),
        Eq(C(1, 0), C(0, 0) - Bv(1, 2) + Bv(0, 0)),
        Eq(A(1, 0), A(0, 0) + C(1, -1) + C(1, 1))]), ["fold=x=4"]))
    A, Bv = Var("A", "txy"), Var("B", "txy")   # a var that is only read at the point itself plus one with star halos.
    P.append(Program(Spec("c2g", "xy", [A, Bv], [
        Eq(A(1, 0, 0), A(0, -1, 0) + A(0, 1, 0) - A(0, 0, -2) - A(0, 0, 2) + Bv(0, 0, 0)),
        Eq(Bv(1, 0, 0), Bv(0, 0, 0) + A(0, 0, 0))]), ["fold=x=2,y=2"]))
    # parts that have points on some ranks only: a strip, a corner, every other step.
    A, Bv, C = Var("A", "tx"), Var("B", "tx"), Var("C", "tx")
    P.append(Program(Spec("c2h", "x", [A, Bv, C], [
        Eq(Bv(1, 0), Bv(0, 0) + A(0, 1) - A(0, -1), domain=(x < fx + 6)),
        Eq(C(1, 0), C(0, 0) + Bv(0, -2) - A(0, 2), domain=(x > lx - 3)),
        Eq(A(1, 0), A(0, 0) + Bv(0, -2) - Bv(0, 2) + C(0, 1))]), ["fold=x=4"]))
    A, Bv = Var("A", "txy"), Var("B", "txy")
    P.append(Program(Spec("c2i", "xy", [A, Bv], [
        Eq(Bv(1, 0, 0), Bv(0, 0, 0) + A(0, 1, 1) - A(0, -1, 0), domain=((x < fx + 3) & (y > ly - 4))),
        Eq(A(1, 0, 0), A(0, 0, 0) + Bv(1, -1, 1) - Bv(1, 1, -1), step=((t % 2).eq(0))),
        Eq(A(1, 0, 0), A(0, 0, 0) + Bv(0, 0, 1), step=((t % 2).ne(0)), domain=(x > lx - 2))]), ["fold=x=2,y=2"]))
    A, Bv, S = Var("A", "txy"), Var("B", "txy"), Var("S", "xy", scratch=True)   # halos read through a scratch variable.
    P.append(Program(Spec("c2j", "xy", [A, Bv, S], [
        Eq(S(0, 0), A(0, 1, 0) - A(0, 0, -1) + Bv(0, 0, 1)),
        Eq(A(1, 0, 0), A(0, 0, 0) + S(-1, 1) - S(1, 0)),
        Eq(Bv(1, 0, 0), Bv(0, 0, 0) + A(1, -1, 0))]), ["fold=x=2,y=2"]))
    A, S = Var("A", "txy"), Var("S", "xy", scratch=True)   # a corner that is reached in two steps only.
    P.append(Program(Spec("c2k", "xy", [A, S], [
        Eq(S(0, 0), A(0, 1, 0) + A(0, -2, 0)),
        Eq(A(1, 0, 0), A(0, 0, 0) + S(0, 1) - S(0, -1))]), ["fold=x=2,y=2"]))
    return P


HALO = {"c2a": (2, 1), "c2b": (1, 2), "c2c": (5,), "c2d": (1, 1, 1), "c2e": (1, 1), "c2f": (2,), "c2g": (1, 2), "c2h": (2,), "c2i": (1, 1), "c2j": (2, 2), "c2k": (2, 1)}
STG = {"c2b": 2, "c2f": 3, "c2h": 2, "c2i": 2, "c2j": 2, "c2k": 1}
FOLD = {"c2a": (2, 2), "c2b": (1, 4), "c2c": (4,), "c2d": (1, 2, 2), "c2e": (4, 1), "c2f": (4,), "c2g": (2, 2), "c2h": (4,), "c2i": (2, 2), "c2j": (2, 2), "c2k": (2, 2)}
# (With the default minimum exterior of 32 points, small domains have no interior to overlap with.)
EX = [" -min_exterior 0", " -no-overlap_comms", " -no-use_shm -min_exterior 0", " -no-use_shm -no-overlap_comms", " -force_scalar_exchange -min_exterior 1",
      " -force_scalar_exchange -no-use_shm", "", " -min_exterior 3", " -min_exterior 7 -no-use_shm", " -no-bundle_allocs", " -max_threads 2"]
TMP = ["", " -Mbt 2", " -Mbt 3 -bt 2", " -bt 2"]


def configs(p, quick):
    sp, d = p.spec, p.spec.dirn
    dims, n = sp.dims, len(sp.dims)
    L = Lines()
    t0 = {"c2b": 1}.get(sp.name, 0)
    R = {k: runs(t0, d, k) for k in range(1, 6)}
    fold, halo, stg = FOLD[sp.name], HALO[sp.name], STG.get(sp.name, 1)

    def wf(T):
        return sum([int(w) for w in T.split()[1::2]] or [1])

    def sure(g, lay, T):
        """Sizes that certainly can be split: every rank gets more than the halo plus all shifts."""
        for q, r, h, f in zip(g, lay, halo, fold):
            if r > 1:
                rs = -(-q // r)
                rs += -rs % f
                if q - rs * (r - 1) < (h + -h % f) * (stg * wf(T) + 1):
                    return False
        return True

    def add(g, lay, o, ops, T="", nodes=None, sz="g", **kw):
        nr = 1
        for v in lay:
            nr *= v
        L.add(dimopt(sz, dims, g) + dimopt("nr", dims, lay) + T + o, ops, t0=t0, n=nr,
              mr=not sure(g, lay, T) if sz == "g" else None, nodes=nodes, **kw)

    ranks = (2, 3, 4) if quick else (2, 3, 4, 6, 8)
    if n == 1:
        for nr in ranks:
            for g in list(range(nr, 41 if quick else 81)) + list(range(41, nr * 36, 7 if quick else 3)):
                for o in EX[: 6 if quick else len(EX)]:
                    for T in TMP:
                        if T and g < nr * 2 * halo[0] * stg:
                            continue
                        add([g], [nr], o, R[4 if T else 3][0], T)
                for o in EX:
                    add([g], [nr], o, R[2][1])
            # local sizes, also different ones per rank.
            for sizes in itertools.product((8, 11, 16) if quick else (6, 8, 11, 13, 16), repeat=min(nr, 3)):
                sizes = list(sizes) + [9] * (nr - len(sizes))
                for T in TMP[:2]:
                    for o in EX[:4]:
                        o2 = o + T + f" -nr{dims[0]} {nr}"
                        # all but the last rank need whole vectors.
                        sz = [s + -s % 4 for s in sizes[:-1]] + sizes[-1:]
                        L.add(o2 + " ; " + " ; ".join(f"-l{dims[0]} {s}" for s in sz), R[3][0], t0=t0, n=nr)
    else:
        lays = [l for nr in ranks for l in grids(nr, n)]
        mx = {2: 12, 3: 7}[n] if quick else {2: 18, 3: 10}[n]
        step = 1 if not quick else (1 if n == 2 else 2)
        for lay in lays:
            base = [max(1, h) * r for h, r in zip(halo, lay)]
            for g in itertools.product(*[range(b, mx + 1 + (b if r > 2 else 0), step if r > 1 else step + 2) for b, r in zip(base, lay)]):
                k = sum(g)
                for T in (TMP[k % 4], TMP[(k + 1) % 4]) if quick else TMP:
                    add(g, lay, EX[(k * 3 + len(T)) % 4] if quick else EX[k % 4], R[2][0], T)
        big = [[4 * f * h + 4 + f // 2 for f, h in zip(fold, halo)], [24, 20, 12][:n], [17, 23, 11][:n]]
        for lay in lays:
            for g in big if not quick else big[:2]:
                for T in TMP:
                    for o in EX:
                        add(g, lay, o, R[4 if T else 3][0], T)
                for k in range(1, 4 if quick else 6):
                    for r in R[k]:
                        for T in TMP:
                            add(g, lay, "", r, T)
                for b in itertools.product((0, 4, 8), repeat=n):
                    for o in EX[:4]:
                        add(g, lay, o + dimopt("b", dims, b), R[2][0])
            for l in itertools.product((6, 8) if quick else (5, 6, 8, 9), repeat=n):
                for o in EX[:4]:
                    add([v + -v % f for v, f in zip(l, fold)], lay, o, R[3][0], sz="l")
    # Ranks on several nodes: shared memory with some neighbours, messages with others.
    for nr in (2, 3, 4):
        for lay in grids(nr, n):
            for nodes in sorted({"".join(t) for t in itertools.product("012"[: 2 if quick else 3], repeat=nr)}):
                if nodes[0] == "0" and "1" in nodes:
                    for o in [" -min_exterior 0", " -no-overlap_comms"]:
                        for T in TMP[:2]:
                            add([41, 33, 16][:n], lay, o, R[3][0], T, nodes=nodes)
    return L.l


def main():
    chk = Check("C02")
    P = progs()
    bld = Builder(chk, P)
    jobs = [(p, configs(p, chk.quick)) for p in P]
    chk.log("configurations:", {p.name: len(l) for p, l in jobs})
    run_all(chk, bld, jobs, chunk=150)
    chk.assume += ["integer-valued data in doubles: exact arithmetic", "one schedule of ranks and messages per configuration (others: C03)",
                   "MPI replaced by an in-process implementation with the same semantics"]
    chk.cov["exhaustive"] = True
    chk.cov["bounds"] = "programs and configurations listed by progs()/configs() in checks/c02.py"
    chk.finish()


if __name__ == "__main__":
    main()
