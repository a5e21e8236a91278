import os, sys, itertools, glob
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
from check import _run_proc
import build as B

FL = ["-std=c++17", "-O1", "-w", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DCHECK"]


def exe():
    o1 = B.POOL.go(B.cxx_obj, os.path.join(MC, "fd.cpp"), FL + B.INC + B.COMMON_INC)
    def b(d):
        B.compile_units(d, [[f"{B.REPO}/src/common/fd_coeff2.cpp"], [f"{B.REPO}/src/contrib/coefficients/fd_coeff.cpp"]] +
                        [[f] for f in glob.glob(f"{B.REPO}/src/common/*.cpp") if not f.endswith("fd_coeff2.cpp")], FL + B.INC + B.COMMON_INC)
    d = B.cached(["fdlib", B.tree_hash("common"), FL], b)
    return B.link(B.objs(d) + [o1.result()], "fd", flags=["-fsanitize=address,undefined", "-fopenmp"])


_memo = {}


def exact(der, x0, pts):
    """Derivative of the Lagrange basis polynomials at x0: the unique coefficients that are exact up to degree n-1."""
    out = []
    n = len(pts)
    for i in range(n):
        p, den = [F(1)], F(1)                   # polynomial in (x - x0), ascending powers.
        for j in range(n):
            if j != i:
                c = x0 - pts[j]
                p = [(p[k] * c if k < len(p) else 0) + (p[k - 1] if k else 0) for k in range(len(p) + 1)]
                den *= pts[i] - pts[j]
        v = p[der] / den if der < len(p) else F(0)
        for k in range(2, der + 1):
            v *= k
        out.append(v)
    return out


def cases(q):
    C = []
    ders = range(1, 7 if q else 9)
    for d in ders:
        for r in range(1, 7 if q else 11):
            C.append(("c", d, r, F(0), [F(k) for k in range(-r, r + 1)]))
            C.append(("f", d, r, F(0), [F(k) for k in range(0, r + 1)]))
            C.append(("b", d, r, F(0), [F(k) for k in range(-r, 1)]))
    base = [F(k) for k in range(-3, 4)] if q else [F(k) for k in range(-4, 5)]
    ev = [F(k, 2) for k in range(-8, 9, 1)]
    for n in range(2, 7 if q else 8):
        for pts in itertools.combinations(base, n):
            for e in ev if n < 5 else ev[::3]:
                for d in ders if n < 4 else range(1, n + 2):
                    C.append(("a", d, 0, e, list(pts)))
    for n in range(2, 5 if q else 6):       # any order of the points, uneven spacing.
        src = [F(-5, 2), F(-1), F(0), F(1, 4), F(3), F(7, 2)]
        for pts in itertools.permutations(src[: n + 1] if q else src, n):
            for e in (F(0), F(1, 8), F(-1), F(4)):
                for d in range(1, n + 1):
                    C.append(("a", d, 0, e, list(pts)))
    # other units: grids with a spacing that is far from one.
    units = [F(1, 1 << 12), F(1, 100), F(3, 2), F(25), F(10000), F(1 << 20)]
    for n in range(2, 6 if q else 8):
        for pts in itertools.combinations(base, n):
            for u in units:
                for e in ev[::8] if q else ev[::4]:
                    for d in range(1, n):
                        C.append(("a", d, 0, e * u, [p * u for p in pts]))
    # double values are what the functions are given.
    fl = lambda v: F(float(v))
    return [(k, d, r, fl(e), [fl(p) for p in pts]) for k, d, r, e, pts in C]


def line(c):
    return f"{c[0]} {c[1]} {c[2]} {float(c[3])!r} {','.join(repr(float(p)) for p in c[4])}"


def judge(c, out):
    k, d, a, e, pts = c
    if out == "X":
        return "refused"
    got = [float.fromhex(x) for x in out.split()]
    if len(got) != len(pts):
        return f"{len(got)} coefficients for {len(pts)} points"
    key = (d, e, tuple(pts))
    want = exact(d, e, pts)
    scale = max(abs(w) for w in want)
    if not scale:                               # more derivatives than the points allow: everything cancels.
        gap = min(abs(a - b) for i, a in enumerate(pts) for b in pts[:i])
        scale = (1 / gap) ** d
    for i, (g, w) in enumerate(zip(got, want)):
        if g != g or abs(F(g) - w) > scale * F(1, 10 ** 8):
            return f"coefficient {i} is {g!r}, exact value {w} (derivative {d} at {e} from points {[str(p) for p in pts]})"
    return None


def main():
    chk = Check("C16")
    x = exe()
    if "--replay" in sys.argv:
        ls = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))["stdin"]
        C = [c for c in cases(False) + cases(True) if line(c) in ls][:1]
    else:
        C = cases(chk.quick)
    # invalid arguments must be refused.
    bad = ["c 0 1 0 0", "c 1 0 0 0", "f 1 0 0 0", "b 2 0 0 0", "a 0 0 0 0,1", "a 1 0 0 1", "c -1 2 0 0", "f 0 3 0 0", "a -2 0 0 0,1,2"]

    def shard(part):
        with B._sem:
            rc, out, err, to = _run_proc([x], "\n".join(line(c) for c in part) + "\n", 600)
        ls = out.splitlines()
        for i, c in enumerate(part):
            if i >= len(ls):
                return [(c, "the program died: " + " ".join(err.split())[:500])]
            w = judge(c, ls[i])
            if w:
                return [(c, w)]
        return []
    n = 64
    futs = [B.POOL.leaf(shard, C[i::n]) for i in range(n)]
    for f in futs:
        for c, w in f.result():
            rc, out, err, to = _run_proc([x], line(c) + "\n", 60)
            w2 = judge(c, out.strip()) if rc == 0 else "the program died: " + " ".join(err.split())[:500]
            if w2 and len(chk.viol) < 5:
                chk.violation(line(c), w2, rep(chk, "fd", [line(c)]))
    rc, out, err, to = _run_proc([x], "\n".join(bad) + "\n", 60)
    for b, o in zip(bad, out.splitlines()):
        if o != "X":
            chk.violation(b, "invalid arguments are accepted", rep(chk, "fd", [b]))
    chk.count(states=len(C), transitions=len(C), traces_validated_against_impl=len(C), refused=len(bad))
    for c in C[:: max(1, len(C) // 6)]:
        chk.sample(line(c))
    chk.cov["exhaustive"] = True
    chk.cov["bounds"] = "cases() in checks/c16.py: every derivative order, stencil kind, sample set and evaluation point in the stated ranges"
    chk.assume += ["coefficients compared with exact rational values to 1e-8 of the largest one (double rounding)", "address and undefined-behaviour sanitizers watch every call"]
    chk.finish()


if __name__ == "__main__":
    main()
