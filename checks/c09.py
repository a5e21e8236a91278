import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
from spec import *
from cfg import *

x, y, z, t = Idx("x"), Idx("y"), Idx("z"), Idx("t")
fx, lx, fy, ly, fz, lz = First("x"), Last("x"), First("y"), Last("y"), First("z"), Last("z")


def progs():
    P = []
    # 2-D: interior and its complement write the same variable with different equations.
    A = Var("A", "txy")
    inner = (x >= fx + 2) & (x <= lx - 2) & (y >= fy + 1) & (y <= ly - 3)
    P.append(Program(Spec("c9a", "xy", [A], [
        Eq(A(1, 0, 0), A(0, 0, 0) + A(0, -1, 1) - A(0, 2, -1) + 1, domain=inner),
        Eq(A(1, 0, 0), A(0, 1, 0) - 3, domain=~inner)]), ["fold=x=2,y=2"]))
    # 2-D shapes: diagonal, comb, single point, ring with a hole, empty, disjoint strips, full.
    V = [Var(n, "txy") for n in "ABCDEFGH"]
    A, Bv, C, D, E_, F, G, H = V
    ring = ((x < fx + 3) | (x > lx - 2) | (y < fy + 1) | (y > ly - 3))
    P.append(Program(Spec("c9b", "xy", V, [
        Eq(A(1, 0, 0), A(0, 0, -1) + 1, domain=(x < y)),
        Eq(Bv(1, 0, 0), Bv(0, -1, 0) - 1, domain=((x % 3).eq(1))),
        Eq(C(1, 0, 0), C(0, 0, 0) + A(0, 0, 0), domain=(x.eq(fx) & y.eq(ly))),
        Eq(D(1, 0, 0), D(0, 1, 1) + 2, domain=ring),
        Eq(E_(1, 0, 0), E_(0, 0, 0) + 5, domain=(x < fx)),
        Eq(F(1, 0, 0), F(0, 0, 1) - F(0, 0, 0), domain=((x < fx + 2) | (x > lx - 2))),
        Eq(G(1, 0, 0), G(0, -1, 0) + Bv(0, 0, 0), domain=(((x + y) % 2).eq(0) & (y >= fy + 1))),
        Eq(H(1, 0, 0), H(0, 1, -1) + 7, domain=((x >= fx) & (x <= lx)))]), ["fold=x=2,y=2"]))
    # 1-D with a fold wider than the strips; chain of two stages where the second reads conditional results.
    A, Bv = Var("A", "tx"), Var("B", "tx")
    P.append(Program(Spec("c9c", "x", [A, Bv], [
        Eq(A(1, 0), A(0, 0) + A(0, 1) - A(0, -1), domain=((x >= fx + 3) & (x <= lx - 5))),
        Eq(A(1, 0), A(0, 0) - 2, domain=(x.eq(fx) | x.eq(fx + 2) | (x > lx - 2))),
        Eq(Bv(1, 0), Bv(0, 0) + A(1, 2) - A(1, -3), domain=(x.ne(fx + 5) & x.ne(lx)))]), ["fold=x=4"]))
    # 3-D: faces/edges/simplex, reverse time.
    V = [Var(n, "txyz") for n in "AB"]
    A, Bv = V
    P.append(Program(Spec("c9d", "xyz", V, [
        Eq(A(-1, 0, 0, 0), A(0, 0, 0, 0) + A(0, 1, 0, -1), domain=((x + y + z) < 6)),
        Eq(A(-1, 0, 0, 0), A(0, 0, -1, 0) - 1, domain=(((x + y + z) >= 6) & z.ne(fz + 1))),
        Eq(Bv(-1, 0, 0, 0), Bv(0, 0, 0, 0) + A(-1, 0, 0, 1), domain=((x.eq(fx) | x.eq(lx)) & (y >= fy + 1) & ((z < fz + 1) | (z > lz - 2))))],
        dirn=-1), ["fold=x=1,y=2,z=2"]))
    # Step conditions: index, scalar and 1-D (misc) variables, combined with domain conditions.
    A, Bv, C, Q, K = Var("A", "txy"), Var("B", "txy"), Var("C", "txy"), Var("Q", []), Var("K", ["m"])
    P.append(Program(Spec("c9e", "xy", [A, Bv, C, Q, K], [
        Eq(A(1, 0, 0), A(0, 0, 0) + A(0, 1, -1), step=((t % 2).eq(0))),
        Eq(A(1, 0, 0), A(0, -1, 0) - 4, step=((t % 2).ne(0))),
        Eq(Bv(1, 0, 0), Bv(0, 0, 0) + A(1, 0, 1), step=((t >= 2) & (Q() > 0)), domain=(x > fx + 1)),
        Eq(Bv(1, 0, 0), Bv(0, 0, 1) + 2, step=((t >= 2) & (Q() > 0)), domain=((x <= fx + 1) & (y > fy))),
        Eq(Bv(1, 0, 0), Bv(0, 0, 0) - 1, step=((t < 2) | (Q() <= 0))),
        Eq(C(1, 0, 0), C(0, 0, 0) + Bv(1, -1, 0), step=(K(1) > K(2)), domain=(x.ne(y)))]), ["fold=x=4"]))
    # Only selected steps write at all; older planes stay.
    A, Bv = Var("A", "tx"), Var("B", "tx")
    P.append(Program(Spec("c9f", "x", [A, Bv], [
        Eq(A(1, 0), A(0, 0) + Bv(0, 1) + 1, step=((t % 3).eq(1)), domain=(x > fx + 2)),
        Eq(Bv(1, 0), Bv(0, 0) + A(1, -1) - A(1, 3), step=((t % 2).eq(0)))]), ["fold=x=4"]))
    return P


def configs(p, quick):
    sp, d = p.spec, p.spec.dirn
    dims, n = sp.dims, len(sp.dims)
    L = Lines()
    R = {k: runs(0, d, k) for k in range(1, 6)}
    fold = {"c9a": (2, 2), "c9b": (2, 2), "c9c": (4,), "c9d": (1, 2, 2), "c9e": (4, 1), "c9f": (4,)}[sp.name]
    salts = [0, 1, 2, 3] if sp.name == "c9e" else [0]
    mx = {1: 40, 2: 11, 3: 6}[n] if quick else {1: 64, 2: 16, 3: 8}[n]
    temporal = ["", " -Mbt 2 -bt 0", " -bt 2", " -Mbt 3 -bt 2"] if quick else temporal_set(True)
    if n == 1:
        for g in range(1, mx + 1):
            for b, mb, nb in itertools.product([0, 4, 8, 12], [0, 4, 8], [0, 4]):
                for T in temporal:
                    L.add(opts(dims, [g], [("b", [b]), ("mb", [mb]), ("nb", [nb])], T), R[4 if T else 2][0])
            for th in range(2, 7):
                for T in temporal[:2]:
                    L.add(opts(dims, [g], [("b", [4])], T), R[3][0], th=th, cm=th % 3)
            for k in range(1, 6):
                for r in R[k]:
                    L.add(opts(dims, [g], []), r)
                    L.add(opts(dims, [g], [("Mb", [8])], " -Mbt 2"), r)
            for nr in (2, 3, 4):
                L.add(opts(dims, [g], []) + f" -nrx {nr}", R[3][0], n=nr)
                L.add(opts(dims, [g], [("b", [4])]) + f" -nrx {nr} -no-overlap_comms -Mbt 2", R[3][0], n=nr)
    else:
        for g in itertools.product(range(1, mx + 1), repeat=n):
            for s in salts:
                L.add(opts(dims, g, []), R[3 if len(salts) > 1 else 2][0], salt=s)
            L.add(opts(dims, g, [("b", [4] * n)]), R[2][1])
            L.add(opts(dims, g, [("mb", [2 * f for f in fold]), ("nb", fold)]), R[2][0])
        shapes = [[9, 7, 5][:n], [6, 11, 4][:n], [3, 5, 3][:n]]
        for g in shapes:
            for th in range(1, 6):
                for s in salts:
                    for T in temporal:
                        L.add(opts(dims, g, [("b", [4] * n)], T), R[4][0], th=th, salt=s, cm=th % 3)
            tiles = list(itertools.product([0, 2, 4] if quick else [0, 2, 3, 4, 8], repeat=n))
            for l1, l2 in ([("Mb", "b"), ("b", "mb"), ("mb", "nb"), ("b", "nb"), ("nb", "pb")] if quick else itertools.combinations(LEVELS, 2)):
                for s1, s2 in itertools.product(tiles, repeat=2):
                    if n == 3 and quick and (sum(s1) + sum(s2)) % 4:
                        continue
                    L.add(opts(dims, g, [(l1, s1), (l2, s2)]), R[2][0])
            for T in temporal_set(quick)[1:]:
                for s1 in itertools.product([0, 4], repeat=n):
                    for s in salts:
                        L.add(opts(dims, g, [("Mb", s1), ("b", [4] * n)], T), R[5][0], salt=s)
            for k in range(1, 6):
                for r in R[k]:
                    for s in salts:
                        L.add(opts(dims, g, []), r, salt=s)
                        L.add(opts(dims, g, [("b", [4] * n)], " -Mbt 2"), r, salt=s)
            for o in ["", " -force_scalar", " -mp 5", " -ep 3", " -no-bundle_allocs"]:
                L.add(opts(dims, g, [("b", [8] * n)]) + o, R[3][0])
        for g in shapes[:2] + [[12, 8, 6][:n]]:
            for nr in (2, 4) if quick else (2, 3, 4, 6):
                for lay in grids(nr, n):
                    for o in ["", " -no-overlap_comms", " -Mbt 2 -min_exterior 0", " -min_exterior 1"]:
                        for s in salts[:2]:
                            L.add(opts(dims, g, []) + dimopt("nr", dims, lay) + o, R[3][0], n=nr, salt=s)
    return L.l


def main():
    chk = Check("C09")
    P = progs()
    bld = Builder(chk, P)
    jobs = [(p, configs(p, chk.quick)) for p in P]
    chk.log("configurations:", {p.name: len(l) for p, l in jobs})
    run_all(chk, bld, jobs)
    chk.assume += ["integer-valued data in doubles: exact arithmetic", "OpenMP threads executed one after another",
                   "conditions of equations with the same left-hand side are disjoint (documented requirement)"]
    chk.cov["exhaustive"] = True
    chk.cov["bounds"] = "programs and configurations listed by progs()/configs() in checks/c09.py"
    chk.finish()


if __name__ == "__main__":
    main()
