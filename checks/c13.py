import os, sys, itertools, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
from spec import *
from cfg import *

A, D, K = Var("A", "x"), Var("D", "x"), Var("K", [])
a0, a1, am, d0, k0, X = A(0), A(1), A(-2), D(0), K(), Idx("x")
OPS = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q}


def binary(leaves, ops="+-*"):
    return [Bin(o, lift(p), lift(q)) for o in ops for p in leaves for q in leaves]


def left(leaves, ops="+-*"):
    return [Bin(o2, Bin(o1, lift(p), lift(q)), lift(r)) for o1 in ops for o2 in ops for p in leaves for q in leaves for r in leaves]


def right(leaves, ops="+-*"):
    return [Bin(o1, lift(p), Bin(o2, lift(q), lift(r))) for o1 in ops for o2 in ops for p in leaves for q in leaves for r in leaves]


def balanced(leaves, ops="+-*"):
    return [Bin(o, Bin(o1, lift(p), lift(q)), Bin(o2, lift(r), lift(s))) for o in ops for o1 in ops for o2 in ops
            for p in leaves for q in leaves for r in leaves for s in leaves]


def negs(leaves):
    out = []
    for p in leaves:
        out += [Neg(lift(p)), Neg(Neg(lift(p)))]
        for q in leaves:
            for o in "+-*":
                b = Bin(o, lift(p), lift(q))
                out += [Neg(b), Bin(o, Neg(lift(p)), lift(q)), Bin(o, lift(p), Neg(lift(q))), Neg(Bin(o, Neg(lift(p)), Neg(lift(q)))), Bin("-", lift(p), Neg(b)), Bin("*", Neg(b), Neg(b))]
    return out


def divs():
    out = []
    den = [Num(2), Num(-4), Num(0.5), a0 * a0 + 1]
    num = [a0, Num(1), Num(0), a0 + a1, a0 - 3]
    for n in num:
        for p in den:
            out += [n / p, (n / p) / 4, 8 / (4 / p), (n * 2) / p, n / p * 2, n / (p * 2), n / p - n / p, a1 - n / p, -(n / p), n / (-p), (n + 2) / p + n]
    return out


def literals():
    L = [0.1, 1 / 3, -1e-7, 1e20, 123456789.123456789, 1e300, 2.0 ** 53 - 1, 2.0 ** 31, 4294967297.0, 1e-300, -2.5, 100000.0, 1234567.0, 16777217.0, 0.30000000000000004]
    return [e for v in L for e in (a0 * v, Num(v) + a0 * 0, v - d0, Num(v))]


def funcs():
    pos = [a0 * a0 + 1, Fn("fabs", a1) + 2, (d0 * d0 + 3) * 0.5]
    out = []
    one = ["sqrt", "cbrt", "fabs", "erf", "exp", "log", "atan", "sin", "cos"]
    for f in one:
        for i, p in enumerate(pos):
            q = p * 0.001 if f in ("exp", "erf", "sin", "cos") else p
            out += [Fn(f, q), Fn(f, q) * 2 + a0, Fn("fabs", Fn(f, q) - 1)]
    for p in [a0, a1 * 0.01, d0 + 1, X + a0]:      # pairs with the same and with different arguments
        out += [Fn("sin", p) + Fn("cos", p), Fn("cos", p) - Fn("sin", p) * 2, Fn("sin", p) * Fn("cos", a1), Fn("cos", p * 2) + Fn("sin", p) * Fn("cos", p)]
    for p in [a0, Num(3), X]:
        for q in [a1, Num(-2), d0]:
            for f in ("max", "min"):
                out += [Fn(f, p, q), Fn(f, p, q) - Fn(f, q, p), Fn(f, Fn("min", p, q), a0 - 1), Fn("max", p, Fn(f, q, a1))]
    for e in (2, 3, 0.5, 0, 1, -1):
        out += [Fn("pow", a0 * a0 + 1, e), Fn("pow", Fn("fabs", d0) + 2, e) + Fn("pow", Fn("fabs", d0) + 1, e)]
    out += [Fn("pow", Num(2), a0 * 0.01), Fn("pow", Fn("fabs", a0) + 1, d0 * 0.01)]
    return out


def sums():
    out = []
    L = [a0, a1, am, d0, k0, X]
    for n in range(3, 13):
        for sg in range(4):
            e = L[0]
            for i in range(1, n):
                q = L[i % (2 + sg)]
                e = e + q if (i * (sg + 1)) % 3 else e - q
            out.append(e)
            e = L[sg]
            for i in range(1, n):
                q = L[(i + sg) % 6]
                e = q + e if i % 2 else q - e
            out.append(e)
        e = L[0] + 0
        for i in range(min(n, 5)):
            e = e * (L[i % 4] if i % 2 else Num(2))
        out += [e, e * 2 + L[1], (L[0] + L[1]) * (L[0] + L[1]) + (L[1] + L[0])]
    return out


def shared():
    """Node objects used by several equations, as user code that keeps a sub-expression in a C++ variable does."""
    base = [a0 + a1, a0 - a1, a0 * d0, a0 + 2, Neg(a0), a0 + a1 + d0, a0 * a1 * 2, a0 - d0 - 1, a0 + a1 * d0, Num(3) + Num(4), X + 2 + a0]
    sh = [Shared(f"sh_{i}", e) for i, e in enumerate(base)]
    out = []
    for i, s in enumerate(sh):
        out += [s + 1, s + a1, s * 2, s - a1, a1 - s, s + s, s * s, s - s, Neg(s), s + sh[(i + 1) % len(sh)], sh[(i + 3) % len(sh)] * s, (s + d0) + (s + d0), s, s * a0 + 1, s + a1 + d0 + 2]
    # more objects made of shared ones.
    s2 = [Shared(f"sh2_{i}", sh[i] + sh[i + 1]) for i in range(4)]
    for s in s2:
        out += [s, s + s, s * 2, s + a0, s - d0]
    return sh + s2, out


def batches(quick):
    """[(name, [exprs], decls, tolerance)]"""
    G = []
    all_leaves = [a0, a1, am, d0, k0, X, Num(0), Num(1), Num(-1), Num(3)]
    three = [a0, a1, Num(2)] if quick else [a0, a1, Num(2), Num(0), X]
    two = [a0, a1] if quick else [a0, a1, Num(3)]
    G.append(("bin", binary(all_leaves), [], 0))
    G.append(("left", left(three), [], 0))
    G.append(("right", right(three), [], 0))
    G.append(("bal", balanced(two), [], 0))
    G.append(("neg", negs([a0, d0, Num(2)] if quick else [a0, a1, d0, Num(2), Num(0), X]), [], 0))
    G.append(("div", divs(), [], 1e-12))
    G.append(("lit", literals(), [], 0))
    G.append(("fun", funcs(), [], 1e-12))
    G.append(("sum", sums(), [], 0))
    d, e = shared()
    G.append(("shr", e, d, 0))
    if not quick:
        G.append(("lr2", left([a0, Num(0), Num(1), Num(-1)]) + right([a0, Num(0), Num(1), Num(-1)]), [], 0))
    return G


def progs(quick):
    P, tol = [], {}
    OPTS = {"": [], "off": ["EXTRA_YC_FLAGS=-no-opt-comb -no-opt-cse -no-opt-pair"], "reo": ["EXTRA_YC_FLAGS=-opt-reorder"],
            "es": ["EXTRA_YC_FLAGS=-max-es 4 -min-es 1"], "cse": ["EXTRA_YC_FLAGS=-no-opt-comb"], "comb": ["EXTRA_YC_FLAGS=-no-opt-cse"], "nopair": ["EXTRA_YC_FLAGS=-no-opt-pair"],
            "reoes": ["EXTRA_YC_FLAGS=-opt-reorder -max-es 2 -min-es 1"], "nobundle": ["EXTRA_YC_FLAGS=-no-bundle"]}
    N = 300
    QUICK = {"fun": ("", "off", "nopair", "reo"), "div": ("", "off", "reo"), "lit": ("", "off"), "neg": ("", "off", "reo", "es"),
             "bal": ("", "reo", "es", "comb"), "sum": ("", "off", "reo", "es", "reoes"), "shr": ("", "off", "reo", "cse", "nobundle", "es"),
             "left": ("", "off", "reo", "comb"), "right": ("", "off", "reo", "cse"), "bin": ("", "off", "es", "reo")}
    for name, ex, decl, tl in batches(quick):
        for b in range((len(ex) + N - 1) // N):
            es = ex[b::(len(ex) + N - 1) // N]
            outs = [Var(f"R{i}", "tx") for i in range(len(es))]
            sp = Spec(f"c13{name}{b}", "x", [A, D, K] + outs, [Eq(o(1, 0), e) for o, e in zip(outs, es)], extra_dsl="\n".join(s.decl() for s in decl))
            sp.vars = [v for v in sp.vars if v in outs or any(v.name + "(" in e.dsl() + "".join(s.decl() for s in decl) for e in es)]
            for k, o in OPTS.items():
                if quick and k not in QUICK.get(name, ("", "off", "es")):
                    continue
                P.append(Program(sp, ["fold=x=4"] + o, name=f"{sp.name}/{k}"))
                tol[P[-1].name] = tl
            if name in ("bin", "fun") and b == 0 or not quick:
                P.append(Program(sp, ["fold=x=4"], arch="intel64", name=f"{sp.name}/intel64"))
                tol[P[-1].name] = tl
            if name in ("bin", "neg", "left") and (b == 0 or not quick):
                P.append(Program(sp, ["fold=x=8", "real_bytes=4"], name=f"{sp.name}/float"))
                tol[P[-1].name] = 1e-6
    return P, tol


def main():
    chk = Check("C13")
    P, tol = progs(chk.quick)
    bld = Builder(chk, P)
    jobs = []
    for p in P:
        t = f"tol={tol[p.name]} " if tol[p.name] else ""
        jobs.append((p, [f"n=1 th=1 t0=0 salt={s} {t}ops=r0:1 |" + dimopt("g", "x", [g]) for s in range(3) for g in (21,)] +
                     [f"n=1 th=1 t0=0 {t}ops=r0:0 |" + dimopt("g", "x", [9]) + " -force_scalar"]))
    chk.log(f"{len(P)} generated programs, {sum(len(p.spec.eqs) for p in P)} expressions")
    run_all(chk, bld, jobs, chunk=10000)
    for i, (k, w, r) in enumerate(chk.viol):       # name the expression.
        m = re.search(r"\bR(\d+)\(", w)
        for p in P:
            if m and p.name == r.get("program"):
                chk.viol[i] = (k, w + " [" + p.spec.eqs[int(m.group(1))].rhs.dsl() + "]", r)
    chk.count(generated_programs=len(P), expressions=sum(len(p.spec.eqs) for p in P))
    chk.assume += ["integer-valued data: exact arithmetic; expressions with division or functions compared within 1e-12 relative",
                   "expressions are evaluated by generated kernels of one-dimensional solutions (avx2, intel64)"]
    chk.cov["exhaustive"] = True
    chk.cov["bounds"] = "every expression of the shapes and leaves listed in batches() of checks/c13.py under every optimisation setting in progs()"
    chk.finish()


if __name__ == "__main__":
    main()
