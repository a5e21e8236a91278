import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
from spec import *
from cfg import *


def progs():
    P = []
    def prog(s, gen, **info):
        p = Program(s, gen, "hist.cpp")
        p.info = info
        P.append(p)
    A, C = Var("A", "tx"), Var("C", "x")
    prog(Spec("c8a", "x", [A, C], [Eq(A(1, 0), A(0, -1) - A(0, 1) + C(1) - C(-1))]), ["fold=x=4"], wv=[0])
    A, Bv = Var("A", "tx"), Var("B", "tx")      # two stages, three planes kept.
    prog(Spec("c8b", "x", [A, Bv], [Eq(Bv(1, 0), Bv(0, 1) + A(0, -2)), Eq(A(1, 0), A(0, 0) - A(-1, 1) + Bv(1, -1))]), ["fold=x=4", "step_alloc=3"], wv=[0, 1])
    A, C = Var("A", "txy"), Var("C", "y")       # 2-D star, 1-D coefficient.
    prog(Spec("c8c", "xy", [A, C], [Eq(A(1, 0, 0), A(0, -1, 0) - A(0, 1, 0) + A(0, 0, -1) - A(0, 0, 2) + C(1))]), ["fold=x=2,y=2"], wv=[0])
    A, Bv = Var("A", "tx"), Var("B", ["t", "x", "m"])  # reverse time, misc index.
    prog(Spec("c8d", "x", [A, Bv], [Eq(A(-1, 0), A(0, -1) + Bv(0, 1, 2) - Bv(0, -1, 1)), Eq(Bv(-1, 0, 1), Bv(0, 0, 1) - A(0, 0)), Eq(Bv(-1, 0, 2), A(0, 1))], dirn=-1), ["fold=x=4"], wv=[0])
    A, Bv = Var("A", "tx"), Var("B", "tx")      # B is updated in some steps and in part of the domain only.
    prog(Spec("c8e", "x", [A, Bv], [Eq(Bv(1, 0), Bv(0, 0) + A(0, 1) - A(0, -1), domain=Cmp("<", Idx("x"), Bin("-", Last("x"), Num(3))), step=Cmp("==", Bin("%", Idx("t"), Num(2)), Num(0))),
                                      Eq(A(1, 0), A(0, 0) - Bv(0, -1) + Bv(0, 2))]), ["fold=x=4"], wv=[0])
    A, Bv = Var("A", "txyz"), Var("B", "xyz")   # 3-D with corners, step-less.
    prog(Spec("c8f", "xyz", [A, Bv], [Eq(A(1, 0, 0, 0), A(0, 1, 0, -1) - A(0, 0, -1, 0) + Bv(-1, 0, 1))]), ["fold=x=1,y=2,z=2"], wv=[0])
    return P


SLOTS = {"c8a": (2, 1), "c8b": (3, 3), "c8c": (2, 1), "c8d": (2, 2), "c8e": (2, 2), "c8f": (2, 1)}
LAY = {"c8a": [(2,), (3,)], "c8b": [(2,), (3,)], "c8c": [(2, 1), (1, 2), (2, 2)], "c8d": [(2,), (3,)], "c8e": [(2,), (3,)], "c8f": [(2, 1, 1), (1, 2, 2)]}
OPT = [" -min_exterior 0", " -no-use_shm -min_exterior 1", " -no-use_shm -no-overlap_comms", " -force_scalar_exchange -no-overlap_comms", " -no-use_shm -force_scalar_exchange -min_exterior 3", " -Mbt 2 -min_exterior 0", " -no-use_shm -Mbt 2"]


def alphabet(p, n, level):
    """Every single operation between two runs."""
    ops = []
    sl = SLOTS[p.name]
    nd = len(p.spec.dims)
    for v, k in enumerate(sl):
        for j in range(k):
            for r in range(n):
                for x in (0, 1) if nd == 1 else (0, 1, 2, 3):
                    ops.append(f"e:{r}:{v}:{j}:{x}")
                if level > 0 or j == 0:
                    for x in (0, 1) if nd == 1 or level < 2 else (0, 1, 2, 3):
                        ops.append(f"a:{r}:{v}:{j}:{x}")
                    for x in (0, 1, 2):
                        ops.append(f"b:{r}:{v}:{j}:{x}")
                        ops.append(f"s:{r}:{v}:{j}:{x}")
        for r in range(n):
            ops.append(f"s:{r}:{v}:0:3")
            if v in p.info["wv"]:
                ops += [f"w:{r}:{v}:{x}" for x in (0, 1)]
        ops.append(f"f:9:{v}")
        if nd == 1:
            ops.append(f"f:8:{v}")
    return ops + ["x", "P"]


def small(p, n):
    """A few operations of each kind, for longer sequences."""
    ops = []
    for v in range(len(SLOTS[p.name])):
        for r in range(n):
            ops += [f"e:{r}:{v}:0:{1 - r % 2}", f"b:{r}:{v}:{SLOTS[p.name][v] - 1}:{0 if r else 1}"]
        if v in p.info["wv"]:
            ops.append(f"w:0:{v}:1")
    return ops + ["f:9:0", "x", "P"]


def lines(segs, head, o, seg_steps=24):
    """Concatenate segments (lists of ops ending in a run) into lines of bounded length."""
    out, cur, steps = [], [], 0
    for s in segs:
        k = sum(int(x[1:]) for x in s if x[0] == "R")
        if steps + k > seg_steps:
            out.append(f"{head} ops={','.join(cur)} |{o}")
            cur, steps = [], 0
        cur += s; steps += k
    if cur:
        out.append(f"{head} ops={','.join(cur)} |{o}")
    return out


def onew(seq):
    return sum(1 for o in seq if o[0] == "w") <= 1


def configs(p, quick):
    sp = p.spec
    dims, nd = sp.dims, len(sp.dims)
    out = []
    size = {1: [31 if p.name == "c8b" else 23], 2: [13, 11], 3: [9, 8, 10]}[nd]
    for li, lay in enumerate(LAY[p.name]):
        n = 1
        for q in lay:
            n *= q
        g = [s * (2 if l == 2 else 3) // 2 if l > 1 else s for s, l in zip(size, lay)]
        base = dimopt("g", dims, g) + dimopt("nr", dims, lay)
        al0, sm = alphabet(p, n, 0 if quick else 2), small(p, n)
        al = al0
        opts = OPT if li == 0 or not quick else OPT[:2]
        for oi, o in enumerate(opts):
            # With wave-fronts, ranks keep more copies of points beyond the overall domain: no single value after "f:8".
            al = [q for q in al0 if "-Mbt" not in o or q[:3] != "f:8"]
            for t0 in (0, 1) if oi == 0 or not quick else (oi % 2,):
                head = f"n={n} t0={t0}"
                # Any single operation, followed by a run of 1 or 2 steps.
                segs = [[a, f"R{k}"] for a in al for k in (1, 2)]
                # Pairs of the small alphabet with or without a run between them; runs after runs.
                segs += [[a, b, "R1"] for a in sm for b in sm if onew((a, b))]
                segs += [[a, "R1", b, "R2"] for a in sm for b in sm]
                if not quick:
                    segs += [[a, b, c, "R1"] for a in sm for b in sm for c in sm if onew((a, b, c))]
                    if oi < 2 and li == 0:
                        segs += [[a, b, "R1"] for a in al for b in al if onew((a, b))]
                out += lines(segs, head, base + o)
                # From the initial (nothing exchanged) state.
                for a in sm:
                    out += [f"{head} ops={a},R1,R1 |{base}{o}"]
                    if not quick or oi < 2:
                        out += [f"{head} ops={a},{b},R1,R1 |{base}{o}" for b in sm if onew((a, b))]
        # A fill on one rank only.
        if p.name == "c8a":
            out += [f"n={n} t0=0 ops=R1,f:{r}:{v},R1 |{base}" for r in range(n) for v in (0, 1)]
        # Some ranks on other nodes.
        for nodes in (["01"] if n == 2 else ["010", "001", "011"] if n == 3 else ["0011", "0101", "0110"]):
            segs = [[a, "R1"] for a in al] + [[a, b, "R1"] for a in sm for b in sm if onew((a, b))]
            out += lines(segs, f"n={n} t0=0 nodes={nodes}", base)
    return out


def main():
    chk = Check("C08")
    P = progs()
    bld = Builder(chk, P)
    jobs = [(p, configs(p, chk.quick)) for p in P]
    chk.log("configurations:", {p.name: len(l) for p, l in jobs})
    run_all(chk, bld, jobs, chunk=40)
    chk.assume += ["integer-valued data in doubles: exact arithmetic", "a write to an element is made on every rank whose domain holds the element",
                   "one schedule of ranks and messages per history (others: C03)"]
    chk.cov["exhaustive"] = True
    chk.cov["bounds"] = "all single operations of alphabet(), all pairs (thorough: triples) of small(), before and between runs, per program and option set in checks/c08.py"
    chk.finish()


if __name__ == "__main__":
    main()
