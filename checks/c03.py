import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
from spec import *
from cfg import *


def progs():
    P = []
    kw = dict(driver="sched.cpp")
    A = Var("A", "tx")
    P.append(Program(Spec("c3a", "x", [A], [Eq(A(1, 0), A(0, 0) - A(0, -1) + 2 * A(0, 2))]), ["fold=x=4"], **kw))
    A, Bv = Var("A", "tx"), Var("B", "tx")   # two stages, two variables exchanged in each step, two planes dirty.
    P.append(Program(Spec("c3b", "x", [A, Bv], [
        Eq(Bv(1, 0), Bv(0, 0) + A(0, 1) - A(-1, -1)),
        Eq(A(1, 0), A(0, 0) + Bv(1, -1) - Bv(0, 1))]), ["fold=x=4"], **kw))
    A = Var("A", "txy")                      # 2-D with corners.
    P.append(Program(Spec("c3c", "xy", [A], [Eq(A(1, 0, 0), A(0, 0, 0) + A(0, 1, 1) - A(0, -1, 1) + 2 * A(0, 1, -1) - A(0, -1, -1))]), ["fold=x=2,y=2"], **kw))
    return P


OPT = {"": " -min_exterior 0", "noover": " -no-overlap_comms", "noshm": " -no-use_shm -min_exterior 0", "noshm_noover": " -no-use_shm -no-overlap_comms", "noshm_dflt": " -no-use_shm"}


def perms(n):
    return ["c", "r"] + ["".join(map(str, p)) for p in itertools.permutations(range(n))]


def configs(p, q):
    sp = p.spec
    L = []
    dims = sp.dims
    T0 = {"c3b": 1}.get(sp.name, 0)

    def add(g, lay, ops, o, k, pol="c", sm=0, td=0, kinds="rts", parts=1, nodes=None):
        n = 1
        for v in lay:
            n *= v
        for i in range(parts):
            L.append(f"n={n} t0={T0} ops={ops} k={k} kinds={kinds} pol={pol} sm={sm} td={td} mr=1 " + (f"nodes={nodes} " if nodes else "") +
                     (f"part={i}/{parts} " if parts > 1 else "") + "|" + dimopt("g", dims, g) + dimopt("nr", dims, lay) + o)

    t = T0
    hist = [f"r{t}:{t+1}", f"r{t}:{t},x,r{t+1}:{t+1}", f"r{t}:{t},w{t+1},r{t+1}:{t+2}"]
    if len(dims) == 1:
        G = {2: [24], 3: [36], 4: [48]}
        lays = [(2,), (3,)] if q else [(2,), (3,), (4,)]
    else:
        G = {2: [16, 6], 3: [24, 6], 4: [16, 16]}
        lays = [(2, 1), (2, 2)] if q else [(2, 1), (1, 2), (2, 2), (3, 1)]
    for lay in lays:
        n = 1
        for v in lay:
            n *= v
        g = G[n]
        for name, o in OPT.items():
            shm = "noshm" not in name
            # every base policy and message mode, all single deviations.
            for pol in perms(n) if n < 4 else ["c", "r", "0123", "3210", "1302", "2031"]:
                for sm in (0,) if shm else (0, 1, 2, 3):
                    for td in (0,) if shm else (0, 1):
                        for T in ("", " -Mbt 2") if sm in (0, 3) else ("",):
                            h = hist[2] if pol == "c" else hist[0] if pol == "r" else hist[len(L) % 3]
                            k = 0 if q and (n > 2 and pol not in "cr" or pol not in "cr" and (sm in (1, 2) or td)) else 1
                            add(g, lay, h, o + T, k, pol, sm, td)
            # two deviations.
            if n == 2 and (len(dims) == 1 or not q):
                for h in hist[:1] if q else hist:
                    add(g, lay, h, o, 2, "c", 0 if shm else 3, 0 if shm else 1, parts=8)
            if not q and n == 3 and len(dims) == 1:
                add(g, lay, hist[0], o, 2, "c", 0 if shm else 3, 0, parts=16)
        # some neighbours on another node.
        for nodes in ["01"] if n == 2 else ["001", "010"] if n == 3 else ["0011", "0101", "0110"]:
            for pol in ["c", "r"]:
                for sm in (0, 3):
                    add(g, lay, hist[2], " -min_exterior 0", 1, pol, sm, int(sm > 0), nodes=nodes)
    return L


def main():
    chk = Check("C03")
    P = progs()
    bld = Builder(chk, P)
    jobs = [(p, configs(p, chk.quick)) for p in P]
    chk.log("configurations:", {p.name: len(l) for p, l in jobs})
    run_all(chk, bld, jobs, chunk=2 if not chk.quick else 4, timeout=800)
    chk.assume += ["sequentially consistent memory between ranks sharing windows; ranks switch at MPI calls and accesses to shared locks",
                   "MPI replaced by an in-process implementation with the same semantics; one OpenMP thread per rank in exchange code"]
    chk.cov["exhaustive"] = True
    chk.cov["bounds"] = "every schedule with at most k deviations (k in each configuration) from the base schedules and message modes listed by configs() in checks/c03.py"
    chk.finish()


if __name__ == "__main__":
    main()
