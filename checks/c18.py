import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
from spec import *
from cfg import *


def progs():
    P = []
    A, Bv = Var("A", "txy"), Var("B", "xy")
    P.append(Program(Spec("c18a", "xy", [A, Bv], [Eq(A(1, 0, 0), A(0, -1, 0) - A(0, 0, 1) + Bv(1, 0))]), ["fold=x=2,y=2"], "life.cpp", new_vars=1))
    # A misc dim, a scratch var and two stages.
    A, Bv, C, S = Var("A", "txy"), Var("B", "xy"), Var("C", ["t", "m", "x", "y"]), Var("S", "xy", scratch=True)
    P.append(Program(Spec("c18b", "xy", [A, Bv, C, S], [Eq(S(0, 0), A(0, 1, 0) - Bv(0, -1)), Eq(A(1, 0, 0), S(-1, 0) - S(0, 1) + C(0, 1, 0, 0)),
                                                        Eq(C(1, 1, 0, 0), C(0, 1, 0, 1) - A(1, 0, -1))]), ["fold=x=2,y=2"], "life.cpp", new_vars=1))
    return P


# Calls on one solution.
ONE = ["D6", "L", "S", "h3", "h9", "h-1", "p9", "p-1", "aA", "rA", "rB", "NU", "aU", "rU", "NA", "M",
       "F4", "F-1", "Gx7", "Gt3", "Gt0", "V2", "V3", "V0", "Q", "q", "q1", "O", "VA", "VAx", "<AU", "<AF", "<UA", "<BU", "<AB", "P", "R", "E", "W"]


CORE = "D6 L S h9 aA rA NU aU V2 F4 <AU <AF <UA P R E".split()
# Calls on two solutions.
TWO = "1P 2P 1R 2R 1E 2E 1aA 2aA 1rA 2rA 1D6 2D6 1h9 1NU 2NU2 1V2 1<A2A 2<A1A 1<A2U 2<A1U 1<U2U 1f 2f 1X 2X 1x 2x 1W".split()
TWOCORE = "1P 2P 1R 2R 1E 2aA 2rA 1D6 1<A2A 2<A1A 1f 2f 1x 2X".split()
OPTS = ["", " -no-bundle_allocs -Mbt 2 -bx 2", " -no-allow_addl_padding -mpx 3 -epy 2"]


def seqs(ops, d, pre="", n=1):
    return ["ops=" + ",".join(pre + o for o in s) + f" n={n} |" for s in itertools.product(ops, repeat=d)]


def main():
    chk = Check("C18")
    P = progs()
    bld = Builder(chk, P)
    q = chk.quick
    jobs = []
    for p in P:
        L = []
        for oi, o in enumerate(OPTS):
            for d in (1, 2) if oi or p is P[1] else (1, 2, 3):
                L += [l + o for l in seqs(ONE, d, "1")]
            for d in (1, 2) if oi or p is P[1] else (1, 2, 3):
                L += [l + o for l in seqs(TWO, d, n=2)]
        if p is P[1]:
            L += seqs(CORE, 3, "1") + seqs(TWOCORE, 3, n=2)
            if not q:
                L += seqs(ONE, 3, "1") + seqs(CORE, 4, "1")
        elif not q:
            L += seqs(CORE, 4, "1") + seqs(TWOCORE, 4, n=2) + seqs(CORE[:4] + CORE[6:8] + CORE[10:11] + CORE[13:], 5, "1")
        jobs.append((p, L))
    chk.log("histories:", {p.name: len(l) for p, l in jobs})
    run_all(chk, bld, jobs, chunk=800)
    chk.assume += ["calls made by one rank; any schedule and number of ranks: C03, C08",
                   "sizes are small; halos needed by the equations are not lowered by the caller"]
    chk.cov["exhaustive"] = True
    chk.cov["bounds"] = (f"all sequences up to 3 calls out of {len(ONE)} on one solution and up to 3 out of {len(TWO)} on two (thorough: 4 of {len(CORE)} and {len(TWOCORE)}, "
                         "5 of a core), each followed by preparation and a checked run; fewer calls with other options and a second program")
    chk.finish()


if __name__ == "__main__":
    main()
