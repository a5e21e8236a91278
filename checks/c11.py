import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
from spec import *
from cfg import *
from batch import *
import build

CO = [1, -1, 2]
OF = [1, -1, 2, 0]


def digraphs(n, loops=False):
    pairs = [(i, j) for i in range(n) for j in range(n) if loops or i != j]      # i reads j
    for m in range(1 << len(pairs)):
        yield [p for k, p in enumerate(pairs) if m >> k & 1]


def acyclic(n, edges):
    left = set(range(n))
    while left:
        ok = {i for i in left if not any(a == i and b in left for a, b in edges)}
        if not ok:
            return False
        left -= ok
    return True


def used_scratch(n, edges, scr):
    """Every scratch node is read by someone."""
    return all(not (scr >> i & 1) or any(b == i for a, b in edges) for i in range(n))


class Maker:
    """Nodes to variables: kinds 'r' (own variable), 's' (scratch), 'm' (slice of a common variable along misc dim m)."""
    def __init__(s, kinds, dirn=1):
        s.kinds, s.dirn = kinds, dirn
        s.vars, s.v = [], []
        M = None
        for i, k in enumerate(kinds):
            if k == "m":
                if M is None:
                    M = Var("M", ["t", "x", "m"]); s.vars.append(M)
                s.v.append(M)
            else:
                s.v.append(Var(f"{'S' if k == 's' else 'V'}{i}", ["x"] if k == "s" else ["t", "x"], scratch=k == "s"))
                s.vars.append(s.v[-1])

    def at(s, i, so, off):
        k = s.kinds[i]
        return s.v[i](off) if k == "s" else s.v[i](so, off, i) if k == "m" else s.v[i](so, off)

    def new(s, i, off=0):
        return s.at(i, s.dirn, off)

    def old(s, i, off=0):
        if s.kinds[i] == "s":      # a scratch node starts from the previous value of some stored node.
            i = max(k for k in range(len(s.kinds)) if s.kinds[k] != "s")
        return s.at(i, 0, off)

    def rhs(s, i, preds, salt=0):
        e = s.old(i, OF[(i + salt) % 4]) * CO[(i + salt) % 3]
        for j in preds:
            e = e + s.new(j, OF[(3 * i + j + salt) % 4]) * CO[(i + 2 * j + salt) % 3]
        return e + (i + 1)


def plain(n, edges, kinds, tag, dirn=1):
    mk = Maker(kinds, dirn)
    return Prog(tag, mk.vars, [Eq(mk.new(i), mk.rhs(i, [b for a, b in edges if a == i])) for i in range(n)])


def split(n, elab, kinds, tag, cond, dirn=1):
    """Two equations per node under complementary conditions; elab: {(i, j): 1 | 2 | 3} half/halves of i that read j."""
    mk = Maker(kinds, dirn)
    q = []
    for h in (1, 2):
        for i in range(n):
            c = cond if h == 1 else ~cond
            q.append(Eq(mk.new(i), mk.rhs(i, [b for (a, b), l in elab.items() if a == i and l & h], h), domain=c))
    return Prog(tag, mk.vars, q)


def stepsplit(n, elab, kinds, tag, dirn=1):
    mk = Maker(kinds, dirn)
    q = []
    for h in (0, 1):
        for i in range(n):
            q.append(Eq(mk.new(i), mk.rhs(i, [b for (a, b), l in elab.items() if a == i and l & (h + 1)], h), step=(Idx("t") % 2).eq(h)))
    return Prog(tag, mk.vars, q)


def estr(e):
    return ",".join(f"{a}<{b}" for a, b in e)


def programs(quick):
    """{name: ([Prog], dirn)}"""
    G = {}
    par = (Idx("x") % 2).eq(0)
    lt = Idx("x") < 5
    d2 = [e for e in digraphs(2) if acyclic(2, e)]
    d3 = [e for e in digraphs(3) if acyclic(3, e)]
    d4 = [e for e in digraphs(4) if acyclic(4, e)]
    # stored variables only: every acyclic graph of 4 equations in every order.
    G["o4"] = ([plain(4, e, "rrrr", "rrrr:" + estr(e)) for e in d4], 1)
    # every mixture of stored, scratch and misc-slice nodes on 3.
    mix = []
    for kinds in itertools.product("rsm", repeat=3):
        if "r" not in kinds and "m" not in kinds or kinds.count("m") == 1:
            continue
        scr = sum(1 << i for i, k in enumerate(kinds) if k == "s")
        for e in d3:
            if used_scratch(3, e, scr) and not all(k == "r" for k in kinds):
                mix.append(plain(3, e, kinds, "".join(kinds) + ":" + estr(e)))
    G["k3"] = (mix, 1)
    # backward in time.
    G["b3"] = ([plain(3, e, k, "back " + k + ":" + estr(e), -1) for e in d3 for k in ("rrr", "srr", "mmr") if used_scratch(3, e, 1 if k[0] == "s" else 0)], -1)
    # 4 nodes with scratch chains.
    ch = []
    for kinds in ("ssrr", "srsr", "rssr", "sssr", "rsrs", "ssms", "srmm"):
        if kinds.count("m") == 1:
            kinds = kinds.replace("m", "r")
        scr = sum(1 << i for i, k in enumerate(kinds) if k == "s")
        for n_, e in enumerate(d4):
            if used_scratch(4, e, scr) and (not quick or n_ % 6 == 0):
                ch.append(plain(4, e, kinds, kinds + ":" + estr(e)))
    G["c4"] = (ch, 1)
    # halves under complementary conditions.
    sp, st = [], []
    for n, ds in ((2, d2), (3, d3)):
        for e in ds:
            for lab in itertools.product((1, 2, 3), repeat=len(e)):
                if quick and n == 3 and (sum(lab) + len(sp)) % 4:
                    sp.append(None); st.append(None)
                    continue
                el = dict(zip(e, lab))
                ls = ",".join(f"{a}<{b}:{l}" for (a, b), l in el.items())
                for kinds in (["rr", "sr"] if n == 2 else ["rrr", "rsr"]):
                    scr = sum(1 << i for i, k in enumerate(kinds) if k == "s")
                    if used_scratch(n, e, scr):
                        sp.append(split(n, el, kinds, f"domain halves {kinds}:{ls}", par if len(sp) % 2 else lt))
                if not (quick and n == 3 and lab.count(3) != 0):
                    st.append(stepsplit(n, el, "r" * n, f"step halves {ls}"))
    G["d3"] = ([p for p in sp if p], 1)
    G["s3"] = ([p for p in st if p], 1)
    return G


# ---- programs that must be refused ----
def refused():
    """Lines for mc/cprog.cpp: 'tag | dirn | vars | equations'."""
    out = []
    def v(kinds):
        return " ".join(f"{'S' if k == 's' else 'V'}{i}:{'x' if k == 's' else 'tx'}" for i, k in enumerate(kinds) if k != "m") + (" M:txm" if "m" in kinds else "")
    def ref(kinds, i, so, xo):
        k = kinds[i]
        return f"S{i},0,{xo},0" if k == "s" else f"M,{so},{xo},{i}" if k == "m" else f"V{i},{so},{xo},0"
    def add(tag, kinds, rd, dirn=1, order=None, cond=None):
        """rd: {i: [(j, step offset, x offset)]}"""
        q = []
        for i in order or range(len(kinds)):
            rr = [ref(kinds, j, so, xo) for j, so, xo in rd.get(i, [])] or [f"C,0,0,0"]
            q.append(f"{ref(kinds, i, dirn, 0)}={'+'.join(rr)}{';' + cond[i] if cond and i in cond else ''}")
        out.append(f"{tag} | {dirn} | C:x {v(kinds)} | " + " ".join(q))
    # every cyclic graph, with self-reads.
    for n, kk in ((1, ["r", "s"]), (2, ["".join(k) for k in itertools.product("rsm", repeat=2)]), (3, ["".join(k) for k in itertools.product("rsm", repeat=3)])):
        for kinds in kk:
            if all(k == "s" for k in kinds):
                kinds = kinds + "r"
            N = len(kinds)
            for e in digraphs(n, loops=n < 3):
                if acyclic(n, e):
                    continue
                for d in (1, -1) if n < 3 else (1,):
                    for xo in ((0, 1) if n < 3 else (1,)):
                        rd = {i: [(b, d, xo) for a, b in e if a == i] for i in range(n)}
                        if N > n:      # all-scratch cycle: a stored variable reads it.
                            rd[n] = [(i, d, 0) for i in range(n)]
                        add(f"cycle {kinds} {estr(e)} dir {d} ofs {xo}", kinds, rd, d)
    for e in digraphs(4):
        if not acyclic(4, e):
            add(f"cycle rrrr {estr(e)}", "rrrr", {i: [(b, 1, 1) for a, b in e if a == i] for i in range(4)})
    # a value of a later step than the one being computed, directly and through scratch variables.
    for d in (1, -1):
        for far in (2, 3):
            for xo in (0, 1, -2):
                add(f"future read dir {d}", "r", {0: [(0, d * far, xo)]}, d)
                add(f"future read of other dir {d}", "rr", {0: [(0, 0, 0), (1, d * far, xo)], 1: [(1, 0, 0)]}, d)
                add(f"future read of other, later equation dir {d}", "rr", {0: [(0, 0, 0)], 1: [(1, 0, 0), (0, d * far, xo)]}, d)
                add(f"future read via scratch dir {d}", "sr", {0: [(1, d * far, xo)], 1: [(0, 0, 0)]}, d)
                add(f"future read of other via scratch dir {d}", "srr", {0: [(2, d * far, xo)], 1: [(0, 0, 0), (1, 0, 0)], 2: [(2, 0, 1)]}, d)
                add(f"future read via two scratch dir {d}", "ssr", {0: [(2, d * far, xo)], 1: [(0, 0, 1)], 2: [(1, 0, 0)]}, d)
                add(f"future read of slice dir {d}", "mm", {0: [(0, 0, 0)], 1: [(1, 0, 0), (0, d * far, xo)]}, d)
    # cyclic only through the halves of conditional equations.
    cs = ["lt", "ge"]
    for i1, i2 in ((0, 0), (1, 1)):
        for xo in (0, 1, -1):
            q = []
            for h in (0, 1):
                for i in (0, 1):
                    rd = f"V{1 - i},1,{xo},0" if h == (i1 if i == 0 else i2) else f"V{i},0,0,0"
                    q.append(f"V{i},1,0,0={rd};{cs[h]}")
            out.append(f"cycle through halves {i1}{i2} ofs {xo} | 1 | C:x V0:tx V1:tx | " + " ".join(q))
    # one half of a variable reads the other half at a neighbour: depends on the order of the points.
    for xo in (1, -1, 2, 0):
        for h in (0, 1):
            out.append(f"half reads same-step value of own variable ofs {xo} | 1 | C:x V0:tx | " +
                       " ".join(f"V0,1,0,0={'V0,1,%d,0' % xo if k == h else 'V0,0,0,0'};{cs[k]}" for k in (0, 1)))
            out.append(f"half of scratch reads itself ofs {xo} | 1 | C:x S0:x V1:tx | " +
                       " ".join(f"S0,0,0,0={'S0,0,%d,0' % xo if k == h else 'C,0,0,0'};{cs[k]}" for k in (0, 1)) + " V1,1,0,0=S0,0,0,0")
    # two definitions of the same value.
    for c1, c2 in (("", ""), ("lt", ""), ("", "lt"), ("lt", "lt"), ("ge", "ge")):
        for o in (0, 1):
            for S in ("V0,1,0,0", "S0,0,0,0"):
                s = lambda c: ";" + c if c else ""
                sec = " V1,1,0,0=S0,0,1,0" if S[0] == "S" else ""
                mid = " V1,1,0,0=C,0,0,0" if o and not sec else ""
                out.append(f"two equations for one value ({c1 or 'always'}, {c2 or 'always'}) | 1 | C:x {'S0:x' if sec else 'V0:tx'}{' V1:tx' if sec or mid else ''} | "
                           f"{S}=C,0,0,0{s(c1)}{mid} {S}=C,0,1,0{s(c2)}{sec}")
    # mixed step directions; no step; wrong offset on the left.
    out.append("mixed directions | 1 | C:x V0:tx V1:tx | V0,1,0,0=V0,0,0,0 V1,-1,0,0=V1,0,0,0")
    for so in (0, 2, -2, 3):
        out.append(f"step offset {so} on the left | 1 | C:x V0:tx | V0,{so},0,0=V0,0,0,0")
    for xo in (1, -1):
        out.append(f"domain offset {xo} on the left | 1 | C:x V0:tx | V0,1,{xo},0=V0,0,0,0")
    return out


def main():
    chk = Check("C11")
    P, jobs = [], []
    for g, (ps, d) in programs(chk.quick).items():
        chk.count(data_flow_graphs=len(ps))
        for sp in batches("c11" + g + "_", ["x"], ps, d, 400):
            p = Program(sp, ["fold=x=4"])
            P.append(p)
            L = Lines()
            for T in ["", " -Mbt 2 -Mbx 8", " -bt 2 -bx 8"]:
                L.add(" -gx 19" + T, f"r0:0,r{d}:{3 * d}")
            L.add(" -gx 10 -bx 4", f"r0:{2 * d}", th=2)
            L.add(" -gx 40 -nrx 2 -min_exterior 0", f"r0:{2 * d}", n=2)
            jobs.append((p, L.l))
            chk.count(generated_programs=1, equations=len(sp.eqs))
    chk.log(f"{len(P)} solutions, {sum(len(p.spec.eqs) for p in P)} equations")
    bld = Builder(chk, P)
    rej = refused()
    exe = build.link([build.cxx_obj(os.path.join(MC, "cprog.cpp"), DRV_FLAGS, [])] + build.compiler_lib(), "cprog", ["-lgomp"])
    run_all(chk, bld, jobs, chunk=10000)
    name_program(chk, P)
    if "--replay" in sys.argv:
        R = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        rej = R["stdin"] if R["program"] == "cprog" else []
    futs = [build.POOL.leaf(run_shard, chk, exe, rej[i::8], "cprog") for i in range(8) if rej[i::8]]
    for f in futs:
        f.result()
    chk.count(programs_to_refuse=len(rej))
    chk.cov["exhaustive"] = True
    chk.cov["bounds"] = ("every acyclic graph of 4 stored equations, of 3 nodes over stored/scratch/misc-slice kinds, and labelled halves on 2-3 nodes, "
                         "in every order of the equations; refusal: every cyclic graph with <= 3 nodes of all kinds and 4 stored nodes")
    chk.finish()


def name_program(chk, P):
    import re
    for i, (k, w, r) in enumerate(chk.viol):
        m = re.search(r"\b([VSMABZ]\w*_\d+)\(", w)
        for p in P:
            if m and p.name == r.get("program") and m.group(1) in p.spec.tags:
                chk.viol[i] = (k, w + f" [{p.spec.tags[m.group(1)]}]", r)


if __name__ == "__main__":
    main()
