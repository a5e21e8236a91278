import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
from spec import *
from cfg import *

x, y, t = Idx("x"), Idx("y"), Idx("t")
fx, lx, fy, ly = First("x"), Last("x"), First("y"), Last("y")


def sv(n, d):
    return Var(n, d, scratch=True)


def progs():
    P = []
    # One scratch, read on both sides.
    A, s1 = Var("A", "txy"), sv("s1", "xy")
    P.append(Program(Spec("c10a", "xy", [A, s1], [
        Eq(s1(0, 0), A(0, -1, 0) + A(0, 0, 1)),
        Eq(A(1, 0, 0), A(0, 0, 0) + s1(1, 0) - s1(0, -2))]), ["fold=x=2,y=2"]))
    # Chain of three with asymmetric offsets, shared by two consumers; the second one is in a later stage.
    A, Bv, s1, s2, s3 = Var("A", "txy"), Var("B", "txy"), sv("s1", "xy"), sv("s2", "xy"), sv("s3", "xy")
    P.append(Program(Spec("c10b", "xy", [A, Bv, s1, s2, s3], [
        Eq(s1(0, 0), A(0, 1, 0) - 1),
        Eq(s2(0, 0), s1(-1, 0) + s1(0, 1)),
        Eq(s3(0, 0), s2(0, -1) - s1(1, 1)),
        Eq(A(1, 0, 0), A(0, 0, 0) + s3(1, 0) - s2(0, 0)),
        Eq(Bv(1, 0, 0), Bv(0, 0, 0) + s2(0, 1) + A(1, -1, 0))]), ["fold=x=4"]))
    # Scratch reading values updated in the same step; 1-D; scratch used by a scratch of a later stage.
    A, Bv, s1, s2 = Var("A", "tx"), Var("B", "tx"), sv("s1", "x"), sv("s2", "x")
    P.append(Program(Spec("c10c", "x", [A, Bv, s1, s2], [
        Eq(s1(0), A(0, 2) - A(0, -1)),
        Eq(A(1, 0), A(0, 0) + s1(3) - s1(-1)),
        Eq(s2(0), A(1, 1) + 2),
        Eq(Bv(1, 0), Bv(0, 0) + s2(-2) - s2(4))]), ["fold=x=4"]))
    # Conditional scratch: different definition near the edges, chosen per point (incl. points outside of the domain).
    A, s1, s2 = Var("A", "txy"), sv("s1", "xy"), sv("s2", "xy")
    left = x < fx + 2
    P.append(Program(Spec("c10d", "xy", [A, s1, s2], [
        Eq(s1(0, 0), A(0, 0, 0) + 1, domain=left),
        Eq(s1(0, 0), A(0, -1, 0) - A(0, 1, 0), domain=~left),
        Eq(s2(0, 0), s1(0, 1) - 5, domain=(y > ly - 1)),
        Eq(s2(0, 0), s1(1, -1), domain=(y <= ly - 1)),
        Eq(A(1, 0, 0), A(0, 0, 0) + s2(-1, 0) - s2(2, 0))]), ["fold=x=2,y=2"]))
    # Consumers under conditions; two consumers of one scratch with different conditions.
    A, Bv, s1 = Var("A", "txy"), Var("B", "txy"), sv("s1", "xy")
    P.append(Program(Spec("c10e", "xy", [A, Bv, s1], [
        Eq(s1(0, 0), A(0, 0, -1) + Bv(0, 1, 0)),
        Eq(A(1, 0, 0), A(0, 0, 0) + s1(-1, 1), domain=((x >= fx + 1) & (x <= lx - 2))),
        Eq(A(1, 0, 0), s1(0, 0) - 3, domain=((x < fx + 1) | (x > lx - 2))),
        Eq(Bv(1, 0, 0), Bv(0, 0, 0) - s1(1, 0), step=((t % 2).eq(0))),
        Eq(Bv(1, 0, 0), Bv(0, 0, 0) + 1, step=((t % 2).ne(0)))]), ["fold=y=4"]))
    # Scratch with misc index, 3-D, reverse time.
    A, s1, s2 = Var("A", "txyz"), sv("s1", ["x", "y", "z", "m"]), sv("s2", "xyz")
    P.append(Program(Spec("c10f", "xyz", [A, s1, s2], [
        Eq(s1(0, 0, 0, 0), A(0, 1, 0, 0) + A(0, 0, 0, -1)),
        Eq(s1(0, 0, 0, 1), A(0, 0, -1, 0) - 2),
        Eq(s2(0, 0, 0), s1(0, 1, 0, 0) - s1(1, 0, 0, 1)),
        Eq(A(-1, 0, 0, 0), A(0, 0, 0, 0) + s1(-1, 0, 0, 0) - s2(0, 0, 1))], dirn=-1), ["fold=x=1,y=2,z=2"]))
    # Several scratch vars of one equation with very different ranges.
    A, s1, s2, s3 = Var("A", "tx"), sv("s1", "x"), sv("s2", "x"), sv("s3", "x")
    P.append(Program(Spec("c10g", "x", [A, s1, s2, s3], [
        Eq(s1(0), A(0, 0) + 1),
        Eq(s2(0), A(0, 1) - s1(5)),
        Eq(s3(0), s1(-6) + s2(1)),
        Eq(A(1, 0), A(0, 0) + s1(2) - s2(-3) + s3(0))]), ["fold=x=4"]))
    # Scratch variables of several sizes that are not alive at the same time, so that they may share memory.
    A, Bv, C = Var("A", "tx"), Var("B", "tx"), Var("C", "tx")
    s1, s2, s3, s4, s5 = sv("s1", ["x", "m"]), sv("s2", ["x", "m"]), sv("s3", "x"), sv("s4", ["x", "m"]), sv("s5", "x")
    e = A(0, 0)
    for i in range(33):
        e = e + s2(1, i) * (1 if i % 5 == 2 else -1 if i % 5 == 3 else 0) if i % 5 in (2, 3) else e
    P.append(Program(Spec("c10h", "x", [A, Bv, C, s1, s2, s3, s4, s5], [
        Eq(s1(0, 0), A(0, -1) + 1),
        Eq(s3(0), A(0, 1) - 2),
        Eq(Bv(1, 0), s1(-1, 0) + s1(1, 0) - s3(2)),
        *[Eq(s2(0, i), Bv(1, i % 5 - 2) - i) for i in range(33) if i % 5 in (2, 3)],
        Eq(s5(0), Bv(1, 0) + 3),
        Eq(A(1, 0), e + s5(-1)),
        Eq(s4(0, -2), A(1, 1)), Eq(s4(0, 6), A(1, -1)),
        Eq(C(1, 0), C(0, 0) + s4(1, -2) - s4(-1, 6))]), ["fold=x=4"]))
    # 2-D, a wide and a narrow scratch variable in consecutive stages and parts.
    A, Bv = Var("A", "txy"), Var("B", "txy")
    s1, s2, s3 = sv("s1", "xy"), sv("s2", ["x", "y", "m"]), sv("s3", "xy")
    P.append(Program(Spec("c10i", "xy", [A, Bv, s1, s2, s3], [
        Eq(s1(0, 0), A(0, 1, 0) + 1),
        Eq(Bv(1, 0, 0), Bv(0, 0, 0) + s1(0, -1), domain=(x > fx)),
        Eq(Bv(1, 0, 0), s1(0, 0), domain=(x <= fx)),
        *[Eq(s2(0, 0, i), Bv(1, 0, i - 3) + i) for i in (3, 4, 5)],
        Eq(s3(0, 0), s2(0, 1, 4) - s2(-1, 0, 3)),
        Eq(A(1, 0, 0), A(0, 0, 0) + s3(1, 0) - s2(0, 0, 5))]), ["fold=x=2,y=2"]))
    # Slots shared by variables with very different halos, the narrow one first.
    A, Bv, C = Var("A", "tx"), Var("B", "tx"), Var("C", "tx")
    s1, s2, s3 = sv("s1", "x"), sv("s2", "x"), sv("s3", "x")
    P.append(Program(Spec("c10j", "x", [A, Bv, C, s1, s2, s3], [
        Eq(s1(0), A(0, 0) + 1), Eq(Bv(1, 0), s1(0) - Bv(0, 0)),
        Eq(s2(0), Bv(1, 1) + 2), Eq(A(1, 0), s2(-67) + s2(39) - A(0, 0)),
        Eq(s3(0), A(1, 0) - 3), Eq(C(1, 0), s3(1) - s3(-1))]), ["fold=x=4"]))
    return P


HALO = {"c10a": (2, 3), "c10b": (3, 3), "c10c": (5,), "c10d": (3, 1), "c10e": (2, 1), "c10f": (3, 2, 2), "c10g": (6,), "c10h": (2,), "c10i": (2, 3), "c10j": (67,)}


def configs(p, quick):
    sp, d = p.spec, p.spec.dirn
    dims, n = sp.dims, len(sp.dims)
    L = Lines()
    R = {k: runs(0, d, k) for k in range(1, 6)}
    fold = {"c10a": (2, 2), "c10b": (4, 1), "c10c": (4,), "c10d": (2, 2), "c10e": (1, 4), "c10f": (1, 2, 2), "c10g": (4,), "c10h": (4,), "c10i": (2, 2), "c10j": (4,)}[sp.name]
    temporal = ["", " -Mbt 2", " -bt 2", " -Mbt 4 -bt 2", " -Mbt 3"]
    if n == 1:
        for g in list(range(1, 45 if quick else 90)):
            for b, mb, nb in itertools.product([0, 4, 8, 24], [0, 4, 8], [0, 4]):
                for T in temporal if quick else temporal_set(True):
                    L.add(opts(dims, [g], [("b", [b]), ("mb", [mb]), ("nb", [nb])], T), R[4 if T else 2][0])
            for th in (2, 3, 4):
                for cm in (0, 1, 2):
                    for to in (0, 1):
                        for T in temporal[:3]:
                            L.add(opts(dims, [g], [("b", [4])], T), R[2][0], th=th, cm=cm, to=to)
            for k in range(1, 5):
                for r in R[k]:
                    L.add(opts(dims, [g], []), r)
            for o in [" -no-bundle_allocs", " -no-bundle_allocs -mp 3", " -ep 5", " -init_scratch_vars", " -force_scalar"]:
                for b in (0, 8):
                    for th in (1, 3):
                        L.add(opts(dims, [g], [("b", [b])]) + o, R[3][0], th=th)
        # temporal blocks of several steps.
        for b in (32, 48, 64):
            for g in range(b + 1, b + 40, 3 if quick else 1):
                for mb in (0, 4, 16):
                    for T in temporal[2:4]:
                        L.add(opts(dims, [g], [("b", [b]), ("mb", [mb])], T), R[4][0])
    else:
        mx = {2: 11, 3: 6}[n] if quick else {2: 16, 3: 8}[n]
        for g in itertools.product(range(1, mx + 1), repeat=n):
            L.add(opts(dims, g, []), R[2][0])
            L.add(opts(dims, g, [("b", [4] * n)]), R[2][1])
            L.add(opts(dims, g, [("mb", [2 * f for f in fold]), ("nb", fold)]), R[2][0], th=2)
            L.add(opts(dims, g, [("b", [8] * n)]) + " -no-bundle_allocs", R[2][0], th=1 + sum(g) % 3)
        shapes = [[9, 7, 5][:n], [6, 13, 4][:n], [3, 5, 3][:n]]
        for g in shapes:
            tiles = list(itertools.product([0, 2, 4] if quick else [0, 2, 3, 4, 8], repeat=n))
            for l1, l2 in ([("Mb", "b"), ("b", "mb"), ("mb", "nb"), ("b", "nb"), ("nb", "pb")] if quick else itertools.combinations(LEVELS, 2)):
                for s1, s2 in itertools.product(tiles, repeat=2):
                    if n == 3 and quick and (sum(s1) + sum(s2)) % 4:
                        continue
                    L.add(opts(dims, g, [(l1, s1), (l2, s2)]), R[2][0])
            for T in temporal_set(quick)[1:]:
                for s1 in itertools.product([0, 4, 8], repeat=n):
                    for b in ([4] * n, [8] * n, [16] * n):
                        L.add(opts(dims, [2 * v for v in g], [("Mb", s1), ("b", b)], T), R[5][0])
            for th in (2, 3, 4):
                for cm in (0, 1, 2):
                    for T in temporal:
                        for inner in ("", " -inner_threads 2", f" -inner_threads 2 -bind_inner_threads", " -outer_threads 1"):
                            L.add(opts(dims, g, [("b", [8] * n), ("mb", [4] * n)], T) + inner, R[3][0], th=th, cm=cm)
            for k in range(1, 6):
                for r in R[k]:
                    L.add(opts(dims, g, []), r)
                    L.add(opts(dims, g, [("b", [4] * n)], " -Mbt 2"), r)
            for o in ["", " -force_scalar", " -mp 5", " -ep 3", " -no-bundle_allocs", " -init_scratch_vars"]:
                L.add(opts(dims, g, [("b", [8] * n)]) + o, R[3][0])
    halo = HALO[sp.name]
    for g in [[4 * h + 5 for h in halo], [24, 26, 12][:n], [33, 17, 15][:n]]:
        for nr in (2, 4) if quick else (2, 3, 4, 6):
            for lay in grids(nr, n):
                for o in [" -min_exterior 0", " -no-overlap_comms -no-bundle_allocs", " -Mbt 2 -min_exterior 0", " -Mbt 3 -no-use_shm", " -min_exterior 2 -no-use_shm", " -b 8 -mb 4"]:
                    for th in (1, 2):
                        L.add(opts(dims, g, []) + dimopt("nr", dims, lay) + o, R[3][0], n=nr, th=th)
    return L.l


def main():
    chk = Check("C10")
    P = progs()
    bld = Builder(chk, P)
    jobs = [(p, configs(p, chk.quick)) for p in P]
    chk.log("configurations:", {p.name: len(l) for p, l in jobs})
    run_all(chk, bld, jobs, chunk=250)
    chk.assume += ["integer-valued data in doubles: exact arithmetic", "OpenMP threads executed one after another"]
    chk.cov["exhaustive"] = True
    chk.cov["bounds"] = "programs and configurations listed by progs()/configs() in checks/c10.py"
    chk.finish()


if __name__ == "__main__":
    main()
