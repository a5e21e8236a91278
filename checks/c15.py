import os, sys, itertools, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
from spec import *
import build as B

ND = 5      # layouts of 1..ND dimensions


def layout_exe():
    """The driver with the repo's headers, its generated layout classes and macros for up to ND dimensions."""
    A = Var("A", "txyzw")
    sp = Spec("c15", "xyzw", [A], [Eq(A(1, 0, 0, 0, 0), A(0, 0, 0, 0, 0))])
    files = {"specs0": dsl_file([sp])}
    key = hashlib.sha256(json.dumps(files).encode()).hexdigest()
    g = B.gen_headers(B.yc_exe(files), key, "c15", ["fold=x=1,y=2,z=2"], "avx2")
    common, mcrt = B.POOL.go(B.common_objs), B.POOL.go(B.cxx_obj, os.path.join(MC, "mcrt.cpp"), DRV_FLAGS, HDRS[2:])
    gl = f"{B.REPO}/utils/bin/gen_layouts.pl"
    cls = subprocess.run(["perl", gl, "-d", str(ND)], capture_output=True, text=True, check=True).stdout
    mac = subprocess.run(["perl", gl, "-m", str(ND)], capture_output=True, text=True, check=True).stdout
    tab = ['#include "yask_stencil.hpp"', "#include <string.h>", "using namespace yask; using namespace std; typedef long L; typedef vector<L> LV;",
           "struct LayoutEntry { const char* perm; int n; L (*lay)(const Indices&, const Indices&); Indices (*unlay)(const Indices&, L); L (*mlay)(const LV&, const LV&); LV (*munlay)(L, const LV&); };",
           mac.replace("#pragma once", ""), "vector<LayoutEntry> layout_table() { return {"]
    for n in range(1, ND + 1):
        for p in itertools.permutations(range(1, n + 1)):
            s = "".join(map(str, p))
            j = ", ".join(f"j[{k}]" for k in range(n))
            d = ", ".join(f"d[{k}]" for k in range(n))
            tab.append(f'{{ "{s}", {n}, [](const Indices& z, const Indices& i) -> L {{ return Layout_{s}(z).layout(i); }}, [](const Indices& z, L a) {{ return Layout_{s}(z).unlayout(a); }}, '
                       f'[](const LV& j, const LV& d) -> L {{ return LAYOUT_{s}({j}, {d}); }}, [](L ai, const LV& d) {{ LV j({n}); UNLAYOUT_{s}(ai, {j}, {d}); return j; }} }},')
    tab.append("}; }")
    gdir = os.path.join(B.cached(["c15gen", cls, mac], lambda dd: (open(os.path.join(dd, "yask_layouts.hpp"), "w").write(cls),
                                                                  open(os.path.join(dd, "yask_layout_macros.hpp"), "w").write(mac))))
    fl = [f"-I{gdir}", "-DMAX_DIMS=6", f"-I{MC}", *B.kernel_flags(g, "avx2", "-O1"), f"-I{B.REPO}/src/contrib/coefficients"]
    o1 = B.POOL.go(B.cxx_obj, os.path.join(MC, "layout.cpp"), fl, HDRS)
    o2 = B.POOL.go(B.cxx_obj, "\n".join(tab), fl, HDRS)
    return B.link([o1.result(), o2.result(), mcrt.result()] + common.result(), "layout", B.GUARD)


def configs(q):
    L = [f"sec=idiv lo={-40 if q else -300} hi={40 if q else 300} int={i}" for i in (0, 1)]
    L += [f"sec=combo n={11 if q else 14}", f"sec=div n={40 if q else 150}"]
    for n, mx in [(1, 12), (2, 6), (3, 4), (4, 3), (5, 2)] if q else [(1, 40), (2, 12), (3, 7), (4, 4), (5, 3), (6, 2)]:
        for fi in (0, 1):
            for t0, t1 in [(0, 0), (1, 0), (3, 0), (2, 2), (3, 2)]:
                L.append(f"sec=space n={n} max={mx} fi={fi} t0={t0} t1={t1}")
                L.append(f"sec=space n={n} max={mx} fi={fi} t0={t0} t1={t1} to=1")
    for n, mx in [(1, 6), (2, 5), (3, 4), (4, 3), (5, 2)] if q else [(1, 40), (2, 12), (3, 7), (4, 5), (5, 3)]:
        L.append(f"sec=layout n={n} max={mx}")
    for k, n, p in [(1, 30, 8), (2, 40, 8), (3, 36, 5), (4, 24, 3)] if q else [(1, 100, 12), (2, 120, 12), (3, 96, 8), (4, 60, 5), (5, 32, 3)]:
        L.append(f"sec=factors k={k} n={n} pre={p}")
    for n, lo, hi in [(1, -6, 6), (2, -3, 3), (3, -1, 2), (4, -1, 1)]:
        L.append(f"sec=arith n={n} lo={lo} hi={hi}")
    for t0, t1 in [(0, 0), (1, 0), (2, 0), (4, 0), (1, 2), (2, 2), (3, 2), (2, 3), (4, 4)]:
        for to in (0, 1):
            r = 9 if q else 24
            L.append(f"sec=parfor lo={-r} hi={r} s={5 if q else 9} t0={t0} t1={t1} to={to}")
    return L


def main():
    chk = Check("C15")
    p = Plain("layout", layout_exe)
    L = configs(chk.quick)
    run_all(chk, PlainBuilder([p]), [(p, L)], chunk=4)
    chk.cov["states"] = chk.extra.get("cases", 0)
    chk.cov["transitions"] = chk.extra.get("cases", 0)
    chk.assume += ["sizes and offsets are non-negative, divisors positive (the documented domain of these helpers)", "threads executed one after another, in both orders"]
    chk.cov["exhaustive"] = True
    chk.cov["bounds"] = "sections of configs() in checks/c15.py; every case inside each section's ranges"
    chk.finish()


if __name__ == "__main__":
    main()
