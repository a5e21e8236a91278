import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
from apispec import *


def configs(p, quick):
    out = []
    size = ["-gx 4 -gy 3 -gz 3", "-gx 1 -gy 2 -gz 5"] if quick else ["-gx 4 -gy 3 -gz 3", "-gx 1 -gy 2 -gz 5", "-gx 5 -gy 6 -gz 1", "-gx 2 -gy 2 -gz 2", "-gx 7 -gy 1 -gz 3 -Mbt 2"]
    cap = 4000 if quick else 40000
    targets = [(f"var={v}", v) for v in VARS] + [(user_kv(u), u[0]) for u in USER]
    for tv, v in targets:
        for s in size:
            out.append(f"mode=elem {tv} cap={cap} | {s}")
        for extra in ["-no-bundle_allocs", "-mp 3", "-ep 2", "-mpx 5 -epy 3", "-allow_addl_padding"]:
            if not quick or (len(v) + len(extra)) % 3 == 0:
                out.append(f"mode=elem {tv} cap={cap // 2} | {size[0]} {extra}")
        out.append(f"mode=elem {tv} cap={cap // 2} start=3 | {size[0]}" if p.spec.dirn > 0 else f"mode=elem {tv} cap={cap // 2} | {size[0]} -Mbt 2")
        out.append(f"mode=elem {tv} cap={cap // 2} wrap=1 | {size[0]}")
        out.append(f"mode=elem {tv} cap={cap // 2} n=2 | {size[0]} -nrx 2 -nry 1 -nrz 1")
        out.append(f"mode=elem {tv} cap={cap // 2} n=4 | -gx 3 -gy 8 -gz 8 -nrx 1 -nry 2 -nrz 2")
        out.append(f"mode=hist {tv} depth=2 level=2 cap={24 if quick else 60} | {size[0]}")
        if not quick:
            out.append(f"mode=hist {tv} depth=3 level=2 cap=16 | -gx 2 -gy 1 -gz 2")
            out.append(f"mode=hist {tv} depth=2 level=2 cap=24 n=2 | {size[0]} -nrx 2 -nry 1 -nrz 1")
    return out


def main():
    chk = Check("C06")
    P = programs()
    bld = Builder(chk, P)
    jobs = [(p, configs(p, chk.quick)) for p in P]
    chk.log("configurations:", {p.name: len(l) for p, l in jobs})
    run_all(chk, bld, jobs, chunk=12)
    chk.assume += ["values exactly representable in the element type", "step-wrap mode: the reported window is not compared"]
    chk.cov["exhaustive"] = True
    chk.cov["bounds"] = "every call of the element API on every index of the candidate grid (valid range and 2 beyond on each side), every sequence of calls up to the depth in checks/c06.py"
    chk.finish()


if __name__ == "__main__":
    main()
