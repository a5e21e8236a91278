import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
from apispec import *


def configs(p, quick):
    out = []
    size = ["-gx 4 -gy 3 -gz 3", "-gx 1 -gy 2 -gz 5"] if quick else ["-gx 4 -gy 3 -gz 3", "-gx 1 -gy 2 -gz 5", "-gx 5 -gy 6 -gz 1", "-gx 7 -gy 1 -gz 3 -Mbt 2"]
    ns = 900 if quick else 20000
    for tv, v in [(f"var={v}", v) for v in VARS] + [(user_kv(u), u[0]) for u in USER]:
        for s in size:
            for th, cm in ([(1, 0), (3, 1)] if quick else [(1, 0), (2, 1), (3, 2), (4, 0), (7, 1)]):
                out.append(f"mode=slice {tv} slices={ns} th={th} cm={cm} | {s}")
        out.append(f"mode=slice {tv} slices={ns} wrap=1 th=2 | {size[0]} -mp 2")
        out.append(f"mode=slice {tv} slices={ns} n=2 | {size[0]} -nrx 2 -nry 1 -nrz 1")
        out.append(f"mode=hslice {tv} depth=1 level=2 cap={20 if quick else 80} th=2 | {size[0]}")
        if not quick:
            out.append(f"mode=hslice {tv} depth=2 level=2 cap=9 th=3 | {size[1]}")
            out.append(f"mode=slice {tv} slices={ns} n=4 th=2 | -gx 3 -gy 8 -gz 8 -nrx 1 -nry 2 -nrz 2")
        else:
            out.append(f"mode=hslice {tv} depth=2 level=2 cap=4 th=3 | {size[1]}")
    return out


def main():
    chk = Check("C07")
    P = programs()
    bld = Builder(chk, P)
    jobs = [(p, configs(p, chk.quick)) for p in P]
    chk.log("configurations:", {p.name: len(l) for p, l in jobs})
    run_all(chk, bld, jobs, chunk=8)
    chk.assume += ["values exactly representable in the element type; products over powers of two", "OpenMP threads executed one after another",
                   "maximum and minimum of an empty slice are not compared", "a strict slice call is refused when its steps are outside the valid window"]
    chk.cov["exhaustive"] = True
    chk.cov["bounds"] = "every slice call on the candidate (first, last) pairs of each variable shape; sequences of element and slice calls up to the depth in checks/c07.py"
    chk.finish()


if __name__ == "__main__":
    main()
