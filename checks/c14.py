import os, sys, itertools, subprocess, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
import build as B

# modifiers of one loop(): name -> effective bits (see mc/loops.hpp)
SERP, SQ, TILE, OMP, MAN, NEST = 1, 2, 4, 8, 16, 32
MODS = {"": 0, "serpentine": SERP, "square_wave": SQ, "square_wave serpentine": SQ | SERP, "tiled": TILE, "nested": NEST,
        "omp": OMP, "omp tiled": OMP | TILE, "omp nested": OMP | NEST, "omp manual": OMP | MAN, "omp serpentine": OMP | SERP,
        "omp square_wave": OMP | SQ, "simd": 0, "omp simd": OMP, "manual": 0}


def effective(mods, nd, enclosed):
    if nd < 2:
        mods &= ~(SQ | NEST | TILE)
    return mods


def shapes(q):
    """(levels: tuple of tuples of dims)."""
    out = [((0,),), ((0, 1),), ((1, 0),), ((0,), (1,)), ((1,), (0,)), ((0, 1, 2),), ((0,), (1, 2)), ((0, 1), (2,)), ((0,), (1,), (2,)), ((2, 0, 1),)]
    if not q:
        out += [((1, 2, 0),), ((2,), (0, 1)), ((2, 1), (0,)), ((0, 1, 2, 3),), ((0, 1), (2, 3)), ((0, 1, 2), (3,)), ((0,), (1, 2, 3)), ((3, 1, 2, 0),)]
    return out


def descs(q):
    out = []
    for sh in shapes(q):
        inner = ["", "serpentine", "square_wave", "square_wave serpentine", "tiled", "simd", "nested"]
        outer = ["", "omp", "omp tiled", "omp manual", "omp nested", "serpentine"]
        if len(sh) == 1:
            opts = [(m,) for m in MODS]
        elif len(sh) == 2:
            opts = list(itertools.product(outer, inner if q else [m for m in MODS if "manual" not in m]))
        else:
            opts = [(a, b, c) for a in ("", "omp") for b in ("", "serpentine") for c in ("", "serpentine", "tiled")]
        for o in opts:
            code, lv = "", []
            for l, m in zip(sh, o):
                rng = f"{l[0]}..{l[-1]}" if len(l) > 1 and list(l) == list(range(l[0], l[-1] + 1)) and "serp" in m else ",".join(map(str, l))
                code += f"{m} loop({rng}) {{ "
                lv.append((l, effective(MODS[m], len(l), len(lv) > 0)))
            code += "} " * len(sh)
            for align in ((True, False) if len(sh) == 1 or not q else (len(out) % 2 == 0,)):
                out.append((code.strip(), lv, align, ("", "pre_")[len(out) % 3 == 2]))
    return out


def unit(lst, base):
    """One translation unit with a function per description."""
    gl = f"{B.REPO}/utils/bin/gen_loops.pl"
    def make(dd):
        src = ['#include "loops.hpp"', "using namespace yask;"]
        for i, (code, lv, align, pre) in enumerate(lst):
            h = os.path.join(dd, f"k{i}.hpp")
            cmd = ["perl", gl, "-output", h, *([] if align else ["-no-align"]), *(["-prefix", pre] if pre else []), code]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise B.GenError(f"error: gen_loops.pl refuses '{code}': {r.stderr[-500:]}")
            P = pre.upper()
            src.append(f"static void f{base + i}(ScanIndices& in_, int nthr, int thr, Rec& rec) {{")
            for a, b in [("LOOP_INDICES", "in_"), ("BODY_INDICES", "body_"), ("OMP_PRAGMA", ""), ("SIMD_PRAGMA", ""),
                         ("OMP_NUM_THREADS", "nthr"), ("OMP_THREAD_NUM", "thr"), ("INNER_LOOP_PREFIX", "")]:
                src.append(f"#define {P}{a} {b}")
            if any(m & NEST for _, m in lv):
                src.append(f"#define {P}OMP_NESTED_PRAGMA")
            for k in range(len(lv) + 1):
                src += [f"#define {P}USE_LOOP_PART_{k}", f'#include "{h}"']
                if k == len(lv) - 1:
                    src.append("rec.visit(body_);")
                elif k < len(lv) - 1 and any(m & NEST for _, m in lv[k + 1:k + 2]):
                    src += [f"#ifndef {P}OMP_NESTED_PRAGMA", f"#define {P}OMP_NESTED_PRAGMA", "#endif"]
            for a in ("LOOP_INDICES", "BODY_INDICES", "OMP_PRAGMA", "SIMD_PRAGMA", "OMP_NUM_THREADS", "OMP_THREAD_NUM", "INNER_LOOP_PREFIX", "OMP_NESTED_PRAGMA"):
                src.append(f"#undef {P}{a}")
            src.append("}")
        src.append(f"void reg{base}(std::vector<Desc>& v) {{")
        for i, (code, lv, align, pre) in enumerate(lst):
            l = ", ".join("{{" + ", ".join(map(str, d)) + f"}}, {m}}}" for d, m in lv)
            nm = code + ("" if align else " (-no-align)") + (f" (-prefix {pre})" if pre else "")
            src.append(f'v.push_back({{"{nm}", {{{l}}}, {"true" if align else "false"}, f{base + i}}});')
        src.append("}")
        open(os.path.join(dd, "u.cpp"), "w").write("\n".join(src) + "\n")
        rc, txt = B.run(["g++", "-std=c++17", "-O1", "-w", "-fPIC", f"-I{MC}", *B.INC, f"-I{B.REPO}/src/common", "-c", os.path.join(dd, "u.cpp"), "-o", os.path.join(dd, "u.o")])
        if rc:
            raise B.GenError("error: generated loop nest does not compile: " + "\n".join(l for l in txt.splitlines() if "rror" in l)[:1500])
    return os.path.join(B.cached(["c14", B.tree_hash("all"), lst, base, open(os.path.join(MC, "loops.hpp")).read(), open(__file__).read()], make), "u.o")


def loops_exe(D):
    def make():
        n = 24
        fu = [(b, B.POOL.go(unit, D[b:b + n], b)) for b in range(0, len(D), n)]
        main = B.POOL.go(B.cxx_obj, os.path.join(MC, "loops.cpp"), ["-std=c++17", "-O2", "-w", f"-I{MC}", *B.INC, f"-I{B.REPO}/src/common"], [os.path.join(MC, "loops.hpp")])
        common = B.POOL.go(B.common_objs)
        reg = '#include "loops.hpp"\n' + "".join(f"void reg{b}(std::vector<Desc>&);\n" for b, _ in fu) + \
            "static std::vector<Desc> all() { std::vector<Desc> v; " + " ".join(f"reg{b}(v);" for b, _ in fu) + " return v; }\nstd::vector<Desc> descs = all();\n"
        r = B.cxx_obj(reg, ["-std=c++17", "-O1", "-w", f"-I{MC}", *B.INC, f"-I{B.REPO}/src/common"], [os.path.join(MC, "loops.hpp")])
        return B.link([f.result() for _, f in fu] + [main.result(), r] + common.result(), "loops", ["-fopenmp"])
    return make


def dim_values(nd, q, align, tiled):
    """(begin, end, stride, align, align_ofs, tile) per dim; the grid gets coarser with the number of dims."""
    if nd == 1:
        bs, ls, ss = range(-5, 6), range(-4, 13), range(1, 6)
        as_, os_ = (range(1, 7), range(-2, 4)) if align else ((1,), (0,))
    elif nd == 2:
        bs, ls, ss = ((-3, 0, 2), (-4, -1, 0, 1, 3, 5, 6), (1, 2, 4)) if q else (range(-3, 3), range(-4, 8), range(1, 5))
        as_, os_ = ((1, 2), (0, 1)) if align else ((1,), (0,))
    elif nd == 3:
        bs, ls, ss = ((-1, 2), (-3, 0, 1, 3, 4), (1, 2)) if q else ((-2, 0, 3), (-4, -1, 0, 1, 2, 3, 4, 5), (1, 2))
        as_, os_ = ((2,), (1,)) if align else ((1,), (0,))
    else:
        bs, ls, ss = (-1, 2), (-2, 0, 1, 2, 3), (1, 2)
        as_, os_ = ((2,), (1,)) if align else ((1,), (0,))
    ts = ((1, 2, 3) if nd < 3 else (2, 3)) if tiled else (1,)
    # the size in units of the stride matters, so sizes grow with it in coarser grids
    v = [(b, b + l * (s if nd > 1 and l > 0 else 1) - (1 if nd > 1 and s > 1 and l > 2 else 0), s, a, o, t * s if nd > 1 else t)
         for b in bs for l in ls for s in ss for a in as_ for o in os_ for t in ts]
    v = list(dict.fromkeys(v))
    # coarser grids: the first dim takes all values, the others a covering subset
    lim = {1: 100000, 2: 60 if q else 260, 3: 14 if q else 30, 4: 6}[nd]
    sub = v[::max(1, len(v) // lim)][:lim]
    return v, sub


def configs(D, q):
    L = []
    for k, (code, lv, align, pre) in enumerate(D):
        dims = sorted(d for l, _ in lv for d in l)
        nd = len(dims)
        tiled = any(m & TILE for _, m in lv)
        full, sub = dim_values(nd, q, align, tiled)
        thr = (1, 2, 3, 5) if any(m & MAN for _, m in lv) else (1,)
        tup = set()
        if nd == 1:
            tup = {(x,) for x in full}
        else:
            tup = set(itertools.product(sub, repeat=nd))
            # every value of each dim against a fixed non-empty and an empty neighbour
            near = [(0, 3, 1, 1, 0, 2), (1, 1, 1, 1, 0, 1), (2, -1, 1, 1, 0, 1)]
            for d in range(nd):
                for x in full[::1 if nd < 3 or not q else 3]:
                    for y in near:
                        tup.add(tuple(x if i == d else y for i in range(nd)))
        for t in sorted(tup):
            s = " ".join(",".join(map(str, x)) for x in t)
            for n in thr:
                L.append(f"{k} {n} {s}")
    return L


def main():
    chk = Check("C14")
    D = descs(chk.quick)
    p = Plain("loops", loops_exe(D))
    L = configs(D, chk.quick)
    chk.log(f"{len(D)} loop descriptions, {len(L)} inputs")
    run_all(chk, PlainBuilder([p]), [(p, L)], chunk=20000)
    chk.cov["loop_descriptions"] = len(D)
    chk.cov["exhaustive"] = True
    chk.cov["bounds"] = "descriptions of descs() over 1-3 (thorough: 4) dims; all begin/end/stride/align/offset/tile values of dim_values(); 1-3 and 5 threads for manually scheduled loops"
    chk.assume += ["strides and tile sizes positive, alignment positive", "the body does not change the indices", "threads of a manually scheduled loop run one after another (they share nothing)"]
    chk.finish()


if __name__ == "__main__":
    main()
