"""Programs and configurations for the checks of the variable-access API (C06, C07)."""
from check import *
from spec import *


def spec(name, d):
    """One solution with a variable of every kind of shape."""
    t1 = 1 if d > 0 else -1
    A, Bv, C, D, S, F, G, H, W = (Var("A", "txyz"), Var("B", "xyz"), Var("C", "tx"), Var("D", ["m", "mb"]), Var("S", []),
                                  Var("F", ["t", "x", "m", "y"]), Var("G", "zx"), Var("H", ["y", "mb"]), Var("W", "tzyx"))
    return Spec(name, "xyz", [A, Bv, C, D, S, F, G, H, W], [
        Eq(A(t1, 0, 0, 0), A(0, 0, 0, 0) + A(0, 1, -1, 2) + Bv(0, 0, -1) + C(0, -1) + C(-t1, 1) + D(1, -2) + D(3, 0) + S() + F(0, 0, -1, 1) + F(0, 0, 1, 0) + G(1, 0) + H(-1, 4) + H(0, 5)),
        Eq(W(t1, 0, 0, 0), W(0, 0, 0, 0) + W(-t1, 0, 1, 0) - W(-2 * t1, 0, 0, 0) + A(0, 0, 0, 0))], dirn=d)


VARS = ["A", "B", "C", "D", "S", "F", "G", "H", "W"]


def programs():
    return [Program(spec("c6a", 1), ["fold=x=2,y=2"], "api.cpp", new_vars=1),
            Program(spec("c6b", -1), ["fold=z=4", "first_inner=0", "outer_domain_layout=1"], "api.cpp", new_vars=1),
            Program(spec("c6c", 1), ["fold=x=2,y=1,z=4", "real_bytes=4", "inner_misc_layout=1", "step_alloc=3"], "api.cpp", new_vars=1),
            Program(spec("c6d", 1), ["fold=x=1,y=1,z=1"], "api.cpp", arch="intel64", new_vars=1)]


USER = [("U1", "new:t,x", "t:3", "", ""), ("U2", "new:q,r", "q:3,r:2", "q:-2,r:5", ""), ("U3", "fixed:x.5,q.3", "", "q:-1", "pad:x:2:3"),
        ("U4", "fixed:t.2,z.3,y.4", "", "", "halo:z:1:2"), ("U5", "new:", "", "", ""), ("U6", "new:x,y,z", "", "", ""), ("U7", "fixed:t.4", "", "", ""),
        ("U8", "new:t,q,y", "t:1,q:2", "q:7", ""), ("U9", "fixed:m.4,x.3", "", "m:-3", ""), ("U10", "fixed:q.1", "", "q:-5", ""),
        ("U11", "fixed:y.2,x.3,q.2,z.1", "", "", "pad:y:1:0,z:0:2")]


def base(sizes="-gx 4 -gy 3 -gz 3"):
    return sizes


def user_kv(u):
    n, us, al, mi, ex = u
    s = f"var={n} user={us}"
    if al: s += f" alloc={al}"
    if mi: s += f" misc={mi}"
    if ex:
        k, _, v = ex.partition(":")
        s += f" {k}={v}"
    return s
