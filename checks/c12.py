import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import *
from spec import *
from cfg import *
from batch import *
from c11 import name_program, CO


def subsets(l):
    for m in range(1 << len(l)):
        yield [e for k, e in enumerate(l) if m >> k & 1]


def prog(tag, nv, rd, dirn, offs):
    """rd: per variable, the reads (variable, step offset in step direction); offs: (i, j, step) -> offset in x."""
    v = [Var("ABC"[i], "tx") for i in range(nv)]
    q = []
    for i in range(nv):
        e = Idx("x") * (i + 1)
        for k, (j, so) in enumerate(rd[i]):
            e = e + v[j](so * dirn, offs(i, j, so)) * CO[(i + k) % 3]
        q.append(Eq(v[i](dirn, 0), e))
    return Prog(tag + " " + "; ".join("ABC"[i] + "<" + ",".join(f"{'ABC'[j]}{so:+d}@{offs(i, j, so)}" for j, so in rd[i]) for i in range(nv)), v, q)


# Offsets in x: all away from the point, none, only those of other variables, only the oldest.
PAT = {"far": lambda i, j, so: [1, -2, 1, -1][(i + 2 * j + so) % 4], "at": lambda i, j, so: 0,
       "other": lambda i, j, so: 0 if i == j else [2, -1][so % 2], "own": lambda i, j, so: -1 if i == j else 0,
       "newer": lambda i, j, so: 0 if so < 0 else 1, "older": lambda i, j, so: -1 if so < 0 else 0}


def two(quick, pats, dirn=1):
    out = []
    for ra in subsets([(0, 0), (0, -1), (1, 0), (1, -1)] + ([] if quick else [(1, 1)])):
        for rb in subsets([(1, 0), (1, -1), (0, 0), (0, -1), (0, 1)]):
            if (1, 1) in ra and (0, 1) in rb:
                continue
            for p in pats:
                out.append(prog(f"{p}", 2, [ra, rb], dirn, PAT[p]))
    return out


def three(quick, pats, dirn=1):
    out = []
    for ra in subsets([(0, 0), (2, 0)] + ([] if quick else [(0, -1)])):
        for rb in subsets([(1, 0)] + ([] if quick else [(0, 0), (2, -1)])):
            for rc in subsets([(0, 0), (0, -1), (1, 0), (1, 1), (0, 1)]):
                for p in pats:
                    out.append(prog(f"{p}", 3, [ra, [(0, 1)] + rb, rc], dirn, PAT[p]))
    return out


def deep(quick, dirn=1):
    """Old steps: one variable that reads up to 4 steps back, alone and read by a second one."""
    out = []
    for ra in subsets([(0, 0), (0, -1), (0, -2), (0, -3)]):
        for rb in [[], [(0, 0)], [(0, 1)], [(0, -2)], [(0, 1), (0, -3)]]:
            for p in ("at", "far", "own"):
                out.append(prog(p, 2, [ra, [(1, 0)] + rb], dirn, PAT[p]))
    return out


def scratch(quick):
    """Halos through scratch variables."""
    out = []
    O = (-2, 0, 3)
    for o, p in itertools.product(O, O):
        A, B, S, T = Var("A", "tx"), Var("B", "tx"), Var("S", "x", scratch=True), Var("T", "x", scratch=True)
        out.append(Prog(f"S=A@{o}; A=S@{p}", [A, S], [Eq(S(0), A(0, o) + 1), Eq(A(1, 0), S(p) - A(0, 0))]))
        A, B, S = Var("A", "tx"), Var("B", "tx"), Var("S", "x", scratch=True)
        out.append(Prog(f"S=A+1@{o}; B=S@{p}", [A, B, S], [Eq(A(1, 0), A(0, -1) + 2), Eq(S(0), A(1, o) * 2), Eq(B(1, 0), S(p) - A(0, 1) + S(0))]))
        for r in O:
            A, B, S, T = Var("A", "tx"), Var("B", "tx"), Var("S", "x", scratch=True), Var("T", "x", scratch=True)
            out.append(Prog(f"S=A@{o}; T=S@{p}; A=T@{r}", [A, S, T], [Eq(S(0), A(0, o) + 1), Eq(T(0), S(p) * 2), Eq(A(1, 0), T(r) - A(0, 0))]))
            A, B, S, T = Var("A", "tx"), Var("B", "tx"), Var("S", "x", scratch=True), Var("T", "x", scratch=True)
            out.append(Prog(f"S=A@{o}; T=B@1; A=S@{p}+T@{r}; B=S@{r}", [A, B, S, T],
                            [Eq(S(0), A(0, o) + 1), Eq(T(0), B(0, 1)), Eq(A(1, 0), S(p) - T(r)), Eq(B(1, 0), S(r) + B(0, 0))]))
            A, B, S, K = Var("A", "tx"), Var("B", "tx"), Var("S", "x", scratch=True), Var("K", "x")
            out.append(Prog(f"A=A@{o}; S=K@{p}-A+1; B=S@{r}+A-1", [A, B, S, K],
                            [Eq(A(1, 0), A(0, o) + K(0)), Eq(S(0), K(p) - A(1, 0)), Eq(B(1, 0), S(r) + A(-1, 0))]))
    return out


def misc(quick):
    out = []
    for w in [(0,), (2,), (0, 1), (1, 2), (0, 2), (0, 1, 2), (-1, 1)]:
        for rr in [(), (0,), (3,), (-1,), (1, 4), (-2, 2), (5, 6)]:
            A, K, L_ = Var("A", ["t", "x", "m"]), Var("K", ["m", "x"]), Var("L", ["m"])
            q, n = [], 0
            for i in w:
                e = A(0, 1, i) + 1
                for r in rr:
                    e = e + K(r, -1) * CO[n % 3] + L_(r)
                    n += 1
                for r in rr[:1]:
                    e = e + A(0, 0, r)
                q.append(Eq(A(1, 0, i), e))
            out.append(Prog(f"misc written {w} read {rr}", [A, K, L_] if rr else [A], q))
    # the range also includes what conditions use.
    for r in (-2, 0, 3):
        A, L_ = Var("A", "tx"), Var("L", ["m"])
        out.append(Prog(f"misc {r} in a step condition", [A, L_], [Eq(A(1, 0), A(0, 1) + 1, step=L_(r) > 0), Eq(A(1, 0), A(0, -1) - 1, step=~(L_(r) > 0))]))
    return out


def readonly(quick, dirn=1):
    """Step-indexed variables that no equation writes, read at old steps in one or two stages, with and without a domain dim."""
    out = []
    for dims in (["t", "x"], ["t"], ["t", "m"]):
        for ra in subsets([0, -1, -2]):
            for rb in subsets([0, -1, -2]):
                if (ra or rb) and 0 not in ra + rb:
                    continue       # (the evaluator's newest plane is the current step.)
                A, B_, K = Var("A", "tx"), Var("B", "tx"), Var("K", dims)
                k = lambda so, h: K(*[so * dirn if d == "t" else h if d == "x" else 1 for d in dims])
                ea, eb = A(0, 1) + 1, A(dirn, -1) * 2
                for n, so in enumerate(ra):
                    ea = ea + k(so, n) * CO[n]
                for n, so in enumerate(rb):
                    eb = eb + k(so, -n) * CO[n]
                out.append(Prog(f"read-only {dims} first stage {ra} second {rb}", [A, B_] + ([K] if ra or rb else []), [Eq(A(dirn, 0), ea), Eq(B_(dirn, 0), eb)]))
    return out


def programs(quick):
    G = {}
    p2 = ["far", "at", "other"] if quick else list(PAT)
    G["two"] = (two(quick, p2), 1)
    G["three"] = (three(quick, ["far", "own"] if quick else list(PAT)), 1)
    G["deep"] = (deep(quick), 1)
    G["back"] = (deep(quick, -1) + two(True, ["own"] if quick else list(PAT), -1)[:: 4 if quick else 1] + three(quick, ["far"], -1)[:: 4 if quick else 1], -1)
    G["scr"] = (scratch(quick), 1)
    G["misc"] = (misc(quick), 1)
    G["ro"] = (readonly(quick), 1)
    G["rob"] = (readonly(quick, -1), -1)
    return G


def main():
    chk = Check("C12")
    P, jobs = [], []
    for g, (ps, d) in programs(chk.quick).items():
        chk.count(equation_sets=len(ps))
        for n, sp in enumerate(batches("c12" + g + "_", ["x"], ps, d, 400)):
            args = ["fold=x=4"]
            p = Program(sp, args)
            P.append(p)
            L = Lines()
            for T in ["", " -Mbt 2 -Mbx 8", " -bt 2 -bx 8"]:
                L.add(" -gx 19" + T, f"r0:0,r{d}:{5 * d}")
            L.add(" -gx 9 -force_scalar", f"r0:{5 * d}")
            L.add(" -gx 40 -nrx 2 -min_exterior 0", f"r0:{3 * d}", n=2)
            if g.startswith("ro"):      # their steps do not advance.
                L = Lines()
                for T in ["", " -bx 8", " -force_scalar"]:
                    L.add(" -gx 19" + T, "r0:0")
                L.add(" -gx 40 -nrx 2 -min_exterior 0", "r0:0", n=2)
            jobs.append((p, L.l))
            chk.count(generated_programs=1, equations=len(sp.eqs))
            if g in ("deep", "scr") and n == 0:     # more planes than needed.
                p = Program(sp, args + ["EXTRA_YC_FLAGS=-step-alloc 6"], name=sp.name + "/alloc6")
                P.append(p)
                jobs.append((p, L.l[:2]))
    chk.log(f"{len(P)} solutions, {sum(len(p.spec.eqs) for p in P)} equations")
    bld = Builder(chk, P)
    run_all(chk, bld, jobs, chunk=10000)
    name_program(chk, P)
    chk.cov["exhaustive"] = True
    chk.cov["bounds"] = ("2-3 variables with every subset of same-step and up to 3 older reads, offset patterns, chains of <= 2 scratch variables, misc indices -2..6; "
                         "up to 6 steps, 1-2 ranks, wavefronts and time-skewed blocks")
    chk.finish()


if __name__ == "__main__":
    main()
