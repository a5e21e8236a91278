import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
from check import _run_proc
from spec import *
from cfg import *
import build

hexs = lambda s: s.encode().hex() or "-"
unh = lambda h: "" if h == "-" else bytes.fromhex(h).decode("utf8", "replace")

A = lambda n, d: Var(n, "t" + d)


def spec(dims, name):
    a, b = A("A", dims), A("B", dims)
    z = [0] * len(dims)
    return Spec(name, dims, [a, b], [Eq(a(1, *z), a(0, *z) + 1), Eq(b(1, *z), b(0, *z) * 2 + a(1, *z))])


FOLD = {"yv17_1d": {"x": 4}, "yv17_2d": {"x": 2, "y": 2}, "yv17_3d": {"x": 1, "y": 4, "z": 1}}
P1 = Program(spec("x", "yv17_1d"), gen=("fold=x=4",), driver="opts.cpp")
P2 = Program(spec("xy", "yv17_2d"), gen=("fold=x=2,y=2",), driver="opts.cpp")
P3 = Program(spec("xyz", "yv17_3d"), gen=("fold=x=1,y=4,z=1",), driver="opts.cpp")

# ------------------------------------------------------------------ options and their settings (from the documentation)
BOOLS = ["print_suffixes", "verbose", "round_up_temporal_angles", "allow_addl_padding", "overlap_comms", "exchange_halos", "use_shm",
         "force_scalar_exchange", "force_scalar", "bind_inner_threads", "bundle_allocs", "init_scratch_vars", "auto_tune"]
INTS = ["max_threads", "outer_threads", "inner_threads", "numa_pref", "auto_tune_radius"]
TGT = ["Mb", "b", "mb", "nb", "pb"]


def table(dims):
    t = {}
    for p in ("g", "l", "Mb", "b", "mb", "nb", "pb", "mp", "ep", "nr", "ri"):
        for d in dims:
            t[p + d] = ("idx", [p + d])
        if p in ("Mb", "b"):
            t[p + "t"] = ("idx", [p + "t"])
        t[p] = ("idx", [p + d for d in dims])
    for d in dims:
        t["d" + d] = ("idx", ["l" + d])
    t["d"] = ("idx", ["l" + d for d in dims])
    t["min_exterior"] = ("idx", ["min_exterior"])
    for b in BOOLS:
        t[b] = ("bool1", [b])
        t["no-" + b] = ("bool0", [b])
    for i in INTS:
        t[i] = ("int", [i])
    t["block_threads"] = ("int", ["inner_threads"])
    t["auto_tune_trial_secs"] = ("dbl", ["auto_tune_trial_secs"])
    t["auto_tune_targets"] = ("list", ["auto_tune_targets"])
    return t


T2 = table("xy")
SHOWN = {}                       # settings shown for several slots or under an alias.


def expand(slots):
    """Setting values -> values of all displayed options."""
    out = {}
    for o, (k, sl) in T2.items():
        if k == "bool0":
            continue
        if any(s in slots for s in sl):
            out[o] = [slots.get(s) for s in sl]
    return out


BAD = ["", "x", "5x", "x5", "1.5", "--", "1e3", "0x", "5 6", "9223372036854775808", "-9223372036854775809", "99999999999999999999999", "-by", "+", "-"]
GOOD_IDX = [("0", 0), ("1", 1), ("7", 7), ("-3", -3), ("+5", 5), ("0x10", 16), ("4294967297", 4294967297), ("1000000007", 1000000007), ("-4611686018427387905", -4611686018427387905)]
GOOD_INT = [("0", 0), ("1", 1), ("7", 7), ("-3", -3), ("+5", 5), ("0x10", 16), ("2147483647", 2147483647), ("-2147483648", -2147483648)]
BAD_INT = BAD + ["2147483648", "-2147483649", "4294967296", "4294967297", "-4294967295", "1099511627777"]
GOOD_DBL = [("0", 0.0), ("1.5", 1.5), ("-2", -2.0), ("1e3", 1000.0), (".5", .5), ("+0.25", .25), ("7", 7.0)]
BAD_DBL = ["", "x", "1.5x", "1.5.5", "nan", "inf", "-inf", "1e999", "-by", "1,5", "--"]
GOOD_LIST = [("b", ["b"]), ("mb,nb", ["mb", "nb"]), ("pb,Mb,b", ["pb", "Mb", "b"]), ("b,b", ["b", "b"])]
BAD_LIST = ["x", "b,x", "x,b", "B", "b mb", "mb;nb", "b,mb,nbx", "-by", "b,,mb"]


def good(kind):
    return {"idx": GOOD_IDX, "int": GOOD_INT, "dbl": GOOD_DBL, "list": GOOD_LIST}.get(kind, [])


def bad(kind):
    return {"idx": BAD, "int": BAD_INT, "dbl": BAD_DBL, "list": BAD_LIST}.get(kind, [])


def parse_value(kind, v):
    """Returns the value or None if it must be refused."""
    if kind in ("idx", "int"):
        if not re.fullmatch(r"[+-]?(0|[1-9][0-9]*|0x[0-9a-f]+)", v):
            return None
        x = int(v, 0)
        b = 63 if kind == "idx" else 31
        return x if -(1 << b) <= x < 1 << b else None
    if kind == "dbl":
        return float(v) if re.fullmatch(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)(e[+-]?[0-9]+)?", v) and abs(float(v)) < 1e300 else None
    l = v.split(",")
    return l if all(x in TGT for x in l) else None


def model(args):
    """-> (refused at option or None, settings, leftover)"""
    i, slots, rest = 0, {}, []
    while i < len(args):
        a = args[i]
        i += 1
        o = T2.get(a[1:]) if a.startswith("-") else None
        if not o:
            rest.append(a)
            continue
        kind, sl = o
        if kind == "bool1" or kind == "bool0":
            slots[sl[0]] = kind == "bool1"
            continue
        v = parse_value(kind, args[i]) if i < len(args) else None
        if v is None:
            return (sl, args[i:]), slots, rest
        i += 1
        for s in sl:
            slots[s] = v
    return None, slots, rest


def same(text, v, kind):
    if kind in ("bool1",):
        return text in (("true", "1") if v else ("false", "0"))
    if kind == "dbl":
        try:
            return abs(float(text) - v) < 1e-9 * max(1, abs(v))
        except ValueError:
            return False
    if kind == "list":
        return [x.strip() for x in text.split(",") if x.strip()] == v
    try:
        return int(text) == v
    except ValueError:
        return False


def rest_ok(text, rest):
    """Leftover arguments in order, each either plain or quoted."""
    def one(a):
        q = r"""["']?""" + "".join((r"\\?" if c in "'\"\\" else "") + re.escape(c) for c in a) + r"""["']?"""
        return q if a else r"""(?:""|'')?"""
    if not rest:
        return text.strip() == ""
    pat = " *" + one(rest[0])
    for p, a in zip(rest, rest[1:]):
        pat += (" +" if p and a else " *") + one(a)
    return re.fullmatch(pat + " *", text) is not None


def judge_parse(args, out, base):
    """out: driver line."""
    if out.startswith("!"):
        return "failed: " + unh(out.split()[1])
    w = out.split()
    got = {}
    for x in w[1:]:
        k, _, v = x.partition("=")
        got[k] = unh(v) if v != "gone" else None
    for k in got:
        if k.startswith("!"):
            return f"getter of '{k[1:]}' reports {got[k]}"
    err, slots, rest = model(args)
    if err:
        if w[0] != "X":
            return f"accepts a malformed or missing value (option for {err[0]}; following arguments {err[1][:1]})"
        # The setting of the refused option and settings not named must be untouched (earlier ones may be set or not).
        named = {s for a in args for s in (T2.get(a[1:], (0, []))[1] if a.startswith("-") else [])}
        for k, v in got.items():
            sl = T2.get(k, (0, [k]))[1]
            if len(sl) != 1:
                continue
            if sl[0] not in named:
                return f"refused, but setting '{k}' is now '{v}'"
            if sl[0] in err[0] and sl[0] not in slots:
                later = [a for a in err[1][1:] if a.startswith("-") and sl[0] in T2.get(a[1:], (0, []))[1]]
                if not later:
                    return f"refused, but setting '{k}' has been changed to '{v}'"
        return None
    if w[0] == "X":
        return "refuses valid options"
    if not rest_ok(unh(w[0][1:]), rest):
        return f"returns '{unh(w[0][1:])}' for the unrecognised arguments {rest}"
    want = expand(slots)
    for k, v in got.items():
        if k not in want:
            return f"setting '{k}' has been changed to '{v}' though it is not named"
    for k, sl in ((k, T2[k][1]) for k in want):
        kind = T2[k][0]
        text = got.get(k, base.get(k))
        if text is None:
            continue
        parts = [x.strip() for x in text.split(",")] if len(sl) > 1 else [text]
        bt = base[k].split(",") if len(sl) > 1 else [base[k]]
        if len(parts) != len(sl):
            return f"setting '{k}' is shown as '{text}'"
        for s, p, b in zip(sl, parts, bt):
            if s in slots:
                if not same(p, slots[s], kind):
                    return f"setting '{k}' is '{text}', expected {slots[s]} for {s}"
            elif p.strip() != b.strip():
                return f"setting '{s}' has been changed to '{p}' though it is not named"
    return None


def tokenise(s):
    out, cur, ok, q = [], "", False, None
    for c in s:
        if q:
            if c == q:
                q, ok = None, True
            else:
                cur += c
        elif c in " \t\n":
            if ok:
                out.append(cur)
            cur, ok = "", False
        elif c in "'\"":
            q = c
        else:
            cur += c
            ok = True
    if q:
        return None
    if ok:
        out.append(cur)
    return out


def quote(a):
    if not a:
        return "''"
    if any(c in a for c in " \t'\""):
        return '"' + a + '"' if '"' not in a else "'" + a + "'"
    return a


def parse_cases(quick):
    C = []
    forms = ("v", "s", "a")
    # every option with every kind of value, alone and followed by another argument.
    for o, (kind, sl) in T2.items():
        if kind.startswith("bool"):
            C += [["-" + o], ["-" + o, "z"], ["-" + o, "-no-" + o], ["-no-" + o.replace("no-", ""), "-" + o], ["-" + o, "true"], ["-" + o, "-" + o]]
            continue
        for v, x in good(kind):
            C += [["-" + o, v], ["-" + o, v, "z"], ["q", "-" + o, v]]
        for v in bad(kind):
            C += [["-" + o, v], ["-" + o, v, "-mbx", "3"], ["-nby", "5", "-" + o, v]]
        C += [["-" + o], ["z", "-" + o], ["-" + o, "-no-verbose"]]
        v2 = good(kind)
        C += [["-" + o, v2[1][0], "-" + o, v2[2][0]], ["-" + o, v2[2][0], "-" + o, v2[0][0]]]
        C += [["-" + o + "=" + v2[1][0]], ["-" + o + v2[1][0]], ["-no-" + o], ["-no-" + o, "3"]]
    # near misses of every name.
    for o in T2:
        for n in (o[:-1], o + "q", o.swapcase(), "-" + o, o + "_", "_" + o, "no-no-" + o, o.replace("_", "-"), o[1:], o + " ", " " + o):
            if n not in T2 and n:
                C += [["-" + n, "5"], ["-" + n]]
        C += [[o, "5"], ["/" + o], ["+" + o, "3"]]
    # sequences.
    one = []
    for o, (kind, sl) in T2.items():
        one.append(["-" + o] if kind.startswith("bool") else ["-" + o, good(kind)[1][0] if kind != "list" else "mb,nb"])
    two = [["-" + o] if T2[o][0].startswith("bool") else ["-" + o, good(T2[o][0])[2][0]] for o in T2]
    for a in one:
        for b in two:
            C.append(a + b)
    toks = [["-bx", "4"], ["-b", "6"], ["-by", "2"], ["-b", "x"], ["-bx"], ["-auto_tune"], ["-no-auto_tune"], ["foo"], ["-zz"], ["a b"], ["7"], ["-l", "9"], ["-d", "3"], ["-dx", "8"], [""]]
    n = 3 if quick else 4
    for k in range(1, n + 1):
        for c in itertools.product(toks, repeat=k):
            C.append([x for y in c for x in y])
    out = []
    for i, c in enumerate(C):
        for k, f in enumerate(forms):
            if len(C) > 20000 and quick and (i + k) % 3:
                continue
            if f == "s" and any('"' in a and "'" in a for a in c):
                continue
            out.append((f, c))
    return out


def string_cases(quick):
    al = " a'\"-" + ("" if quick else "\t")
    for n in range(0, 7 if quick else 8):
        for c in itertools.product(al, repeat=n):
            yield "".join(c)
    al2 = ["-bx", " ", "'", '"', "4", "\t", "zz"]
    for n in range(1, 6 if quick else 7):
        for c in itertools.product(al2, repeat=n):
            yield "".join(c)


# ------------------------------------------------------------------ effective sizes
LEV = ["l", "Mb", "b", "mb", "nb", "pb"]


def judge_nest(req, rank, dims, fold, deflt):
    """req: {opt: value}; rank: {opt: text} of the prepared solution."""
    for d in dims:
        v = {}
        for p in LEV:
            v[p] = int(rank[p + d])
        if v["l"] < 1:
            return f"local size in '{d}' is {v['l']}"
        for par, ch in zip(LEV, LEV[1:]):
            r = req.get(ch + d, 0)
            if not (1 <= v[ch] <= v[par]):
                return f"size {ch}{d}={v[ch]} is not within 1..{v[par]} (its parent {par}{d})"
            if v[ch] % fold[d] and v[ch] != v[par]:
                return f"size {ch}{d}={v[ch]} is neither a multiple of the vector length {fold[d]} nor its parent's size {v[par]}"
            if 0 < r <= v[par] and (r % fold[d] == 0 or r == v[par]) and v[ch] != r:
                return f"valid size {ch}{d}={r} (parent {v[par]}, vector {fold[d]}) has been changed to {v[ch]}"
            if r > v[par] and v[ch] != v[par]:
                return f"oversize {ch}{d}={r} has become {v[ch]}, its parent's size is {v[par]}"
            if 0 < r < v[par] and v[ch] < r:
                return f"size {ch}{d}={r} has been reduced to {v[ch]} though its parent's size is {v[par]}"
    for p in ("Mb", "b"):
        if int(rank[p + "t"]) < 0:
            return f"step size {p}t is {rank[p + 't']}"
    r = req.get("bt", 0)
    if r > 0 and (req.get("Mbt", 0) <= 0 or req["Mbt"] >= r) and all(req.get(k + d, 0) <= 0 for d in dims for k in ("b", "Mb")) and int(rank["bt"]) > r:
        return f"temporal block size {r} has been changed to {rank['bt']}"
    return None


def read_rank(part, base):
    w = part.split()
    if not w:                    # another rank has refused.
        return None, None
    if w[0] == "X":
        return None, unh(w[1])
    r, box, bad, team = dict(base), {}, None, None
    for x in w[1:]:
        k, _, v = x.partition("=")
        if k.startswith("@team"):
            team = [int(q) for q in v.split(":") if q]
        elif k.startswith("@"):
            box[k[1:]] = tuple(int(q) for q in v.split(":"))
        elif k.startswith("!"):
            bad = f"getter of '{k[1:]}' reports {unh(v)}, the settings say {r.get(k[1:])}"
        else:
            r[k] = unh(v)
    return (r, box, bad, team), None


def opts_of(req):
    return " ".join(f"-{k} {v}" for k, v in req.items())


def nline(req, n=1, th=1, run=0, ranks=(), more=()):
    l = f"N n={n} th={th} run={run} {hexs(opts_of(req))} " + " ".join(hexs(opts_of(r)) for r in ranks)
    for m in more:
        l += " / " + hexs(m if isinstance(m, str) else opts_of(m))
    return l.rstrip()


def nest_cases(dims, quick):
    """Requests for every tile level; the same tuple rotated for the other dimensions."""
    v = [0, 1, 3, 4, 6, 8, 20] if quick else [0, -2, 1, 2, 3, 4, 5, 6, 8, 12, 20]
    if len(dims) == 3 and quick:
        v = [0, 3, 4, 8, 20]
    C = []
    for l in ([5, 8, 16] if quick else [1, 3, 4, 5, 8, 9, 16]):
        tup = list(itertools.product(v, repeat=5)) if len(dims) < 3 or not quick else list(itertools.product(v, repeat=5))
        n = len(tup)
        for i, t in enumerate(tup):
            req = {}
            for k, d in enumerate(dims):
                tt = tup[(i * (7 * k + 1) + k * 1237) % n]
                req["l" + d] = [l, l + 3, l + 4][k]
                for p, x in zip(LEV[1:], tt):
                    if x:
                        req[p + d] = x
            C.append(req)
    return C


def main():
    chk = Check("C17")
    q = chk.quick
    bld = Builder(chk, [P1, P2, P3])
    exes = {p.name: bld.get(p).exe for p in (P1, P2, P3)}
    replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1])) if "--replay" in sys.argv else None

    def run(prog, lines):
        with build._sem:
            rc, out, err, to = _run_proc([exes[prog]], "\n".join(lines) + "\n", 800)
        ls = out.splitlines()
        base = {}
        if ls and ls[0].startswith("D"):
            for x in ls[0].split()[1:]:
                k, _, v = x.partition("=")
                if k[0] != "?":
                    base[k] = unh(v)
        ls = ls[1:]
        return base, ls, ("did not finish" if to else f"the program died (rc={rc}): " + " ".join(err.split())[-300:])

    def shard(prog, cases):
        base, ls, dead = run(prog, [c[0] for c in cases])
        n = 0
        for i, (line, judge, what) in enumerate(cases):
            n += 1
            if len(chk.viol) >= 5:
                return
            w = judge(base, ls[i]) if i < len(ls) else dead
            if w:
                b2, l2, d2 = run(prog, [line])           # replay before report.
                w2 = judge(b2, l2[0]) if l2 else d2
                if w2:
                    chk.violation(f"{prog} | {what}", w2, rep(chk, prog, [line]))
                elif i < len(ls):
                    b2, l2, d2 = run(prog, [c[0] for c in cases[: i + 1]])
                    w2 = judge(b2, l2[i]) if i < len(l2) else d2
                    if not w2:
                        raise RuntimeError(f"not reproducible: {what}: {w}")
                    chk.violation(f"{prog} | {what}", w2 + " (only after other cases)", rep(chk, prog, [c[0] for c in cases[: i + 1]]))
                if i >= len(ls):
                    return
        chk.count(states=n, transitions=n, traces_validated_against_impl=n)

    J = {P1.name: [], P2.name: [], P3.name: []}
    # parser.
    for f, a in parse_cases(q):
        line = "P " + f + " " + (" ".join(hexs(x) for x in a) if f != "s" else hexs(" ".join(quote(x) for x in a)))
        J[P2.name].append((line, lambda b, o, a=a: judge_parse(a, o, b), f"{f}: {a}"))
    nparse = len(J[P2.name])
    for s in string_cases(q):
        t = tokenise(s)
        j = (lambda b, o: None if o.split()[0] == "X" and len(o.split()) == 1 else "accepts an unterminated quote") if t is None else (lambda b, o, t=t: judge_parse(t, o, b))
        J[P2.name].append(("P s " + hexs(s), j, repr(s)))
    nstr = len(J[P2.name]) - nparse

    # nests of sizes.
    def nest(prog, dims, req, pre=None):
        def j(b, o):
            if o.startswith("!"):
                return "failed: " + unh(o.split()[1])
            r, x = read_rank(o, b)
            if x is not None:
                return "refused: " + x
            return r[2] or judge_nest(req, r[0], dims, FOLD[prog], None)
        J[prog].append((nline(req), j, opts_of(req)))
    for p, dims in ((P1, "x"), (P2, "xy"), (P3, "xyz")):
        for req in nest_cases(dims, q):
            nest(p.name, dims, req)
        for th in (1, 2, 3):                             # default nano-blocks for inner threads, with and without binding.
            for l in range(1, 21):
                for b in (0, 1, 4, 6, 12, 40):
                    for bind in ({}, {"bind_inner_threads": ""}):
                        req = {"l" + d: l + 2 * k for k, d in enumerate(dims)}
                        if b:
                            req.update({"b" + d: b for d in dims})
                        nest(p.name, dims, {**req, **bind, "max_threads": 6, "inner_threads": th})
        for Mbt, bt, l, b in itertools.product((0, 1, 2, 3, 5, -1), (0, 1, 2, 3, 5, -1), (8, 40), (0, 4, 16)):
            nest(p.name, dims, {**({"Mbt": Mbt} if Mbt else {}), **({"bt": bt} if bt else {}), **{"l" + d: l for d in dims}, **({"b" + d: b for d in dims} if b else {})})

    # number of threads.
    def threads(mx, o, i, dflt):
        m = mx if mx > 0 else dflt
        it = min(max(i, 1), m)
        mo = max(m // it, 1)
        ot = min(o, mo) if o > 0 else mo
        def j(b, out):
            if out.startswith("!"):
                return "failed: " + unh(out.split()[1])
            r, x = read_rank(out, b)
            if x is not None:
                return "refused: " + x
            t = r[3]
            if t[1] != ot or max(t[2], 1) != it:
                return f"{t[1]} outer and {max(t[2], 1)} inner threads are used, expected {ot} and {it} (max {m})"
        req = {"l": 16, "b": 4, "outer_threads": o, "inner_threads": i}
        if mx is not None:
            req["max_threads"] = mx
        J[P2.name].append((nline(req, th=dflt, run=1), j, f"dflt={dflt} " + opts_of(req)))
    R = range(0, 6) if q else range(0, 10)
    for mx, o, i, d in itertools.product(R, R, R, (1, 4) if q else (1, 3, 4, 8)):
        threads(mx, o, i, d)

    # history: options, prepare, more options, prepare again.
    def twice(a, b):
        ex = {}
        for k, v in b.items():
            if k in ("Mb", "b", "mb", "nb", "pb"):
                ex.update({k + d: v for d in "xy"})
            else:
                ex[k] = v
        def j(base, o):
            if o.startswith("!"):
                return "failed: " + unh(o.split()[1])
            r, x = read_rank(o, base)
            if r is None:                                # storage is not resized.
                return None if any(k[0] in "lg" or k in ("mp", "ep") for k in b) or "g" in a and "lx" in a else "refused: " + x
            return r[2] or judge_nest(ex, r[0], "xy", FOLD[P2.name], None)
        J[P2.name].append((nline(a, more=[b]), j, f"{opts_of(a)} / {opts_of(b)}"))
    phases = [{"lx": 4, "ly": 4}, {"lx": 16, "ly": 9}, {"b": 8}, {"bx": 2}, {"Mb": 8}, {"Mbx": 4}, {"mb": 4}, {"nby": 2}, {"pb": 2}, {"bt": 2}, {"Mbt": 2}, {"bt": 1, "Mbt": 3}, {"inner_threads": 2, "max_threads": 4}, {"b": 0}, {"mb": 40}, {"mp": 3}, {"ep": 1}]
    for l1 in ({"l": 4}, {"l": 16}, {"l": 9}, {"g": 12}):
        for a in phases:
            for b in phases:
                twice({**l1, **a}, b)

    # setters do what the options do; sizes that are not positive are refused or replaced.
    for l, g in itertools.product((-9, -1, 0, 1, 8), repeat=2):
        def j(b, o):
            if o.startswith("!"):
                return "failed: " + unh(o.split()[1])
            r, x = read_rank(o, b)
            return None if r is None else r[2] or judge_nest({}, r[0], "xy", FOLD[P2.name], None)
        J[P2.name].append((nline({"l": l, "g": g}), j, f"-l {l} -g {g}"))
        J[P2.name].append((nline({"lx": l, "gx": g, "ly": 8}), j, f"-lx {l} -gx {g} -ly 8"))
    def setter(w, d, v, pre, opt):
        def j(b, o):
            if o.startswith("!"):
                return "failed: " + unh(o.split()[1])
            r, x = read_rank(o, b)
            if r is None:
                return "refused: " + x
            if r[2]:
                return r[2]
            if w in ("g", "l", "mp", "nr", "ri") and v and int(r[0][w + d]) != v:
                return f"{w}{d} is {r[0][w + d]} after it was set to {v}"
            return judge_nest({w + d: v}, r[0], "xy", FOLD[P2.name], None)
        for form in (f"@{w} {d} {v}", f"-{w}{d} {v}"):
            J[P2.name].append((f"N n=1 th=1 run=0 {hexs(pre + ' ' + form)}", j, pre + " " + form))
            J[P2.name].append((f"N n=1 th=1 run=0 {hexs(form + ' ' + pre)}", j, form + " " + pre))
    for w, vs in (("g", (4, 9, 16)), ("l", (4, 9, 16)), ("b", (0, 1, 2, 4, 5, 40)), ("mp", (0, 1, 3, 9)), ("nr", (0, 1)), ("ri", (0,))):
        for d in "xy":
            for v in vs:
                for l in (8, 9):
                    o = "y" if d == "x" else "x"
                    setter(w, d, v, f"-l{o} {l}" + ("" if w in "gl" else f" -l{d} 12"), None)

    # ranks.
    def ranks(prog, dims, n, common, per=(), must=False, layout=None, api=False):
        def j(b, o):
            if o.startswith("!"):
                return "failed: " + unh(o.split()[1])
            rs = [read_rank(p, b) for p in o.split(" # ")]
            if any(x is not None for r, x in rs):
                return "refused: " + str([x for r, x in rs if x][:1]) if must else None
            boxes, tot = [], None
            for k, (r, x) in enumerate(rs):
                if r is None:
                    return f"rank {k} reported nothing"
                if r[2]:
                    return r[2]
                bx = [r[1][d] for d in dims]
                boxes.append(bx)
                g = [int(r[0]["g" + d]) for d in dims]
                if tot is None:
                    tot = g
                if tot != g:
                    return f"overall size is {g} on rank {k} and {tot} on rank 0"
                for d, (f, l), gg in zip(dims, bx, g):
                    if f < 0 or l >= gg or l < f:
                        return f"rank {k} has {f}..{l} of 0..{gg - 1} in '{d}'"
                    if int(r[0]["l" + d]) != l - f + 1:
                        return f"rank {k} has {f}..{l} in '{d}' but its local size is {r[0]['l' + d]}"
                lay = [int(r[0]["nr" + d]) for d in dims]
                p = 1
                for y in lay:
                    p *= y
                if p != n:
                    return f"rank layout {lay} for {n} ranks"
                if layout and any(y and y != z for y, z in zip(layout, lay)):
                    return f"rank layout {lay} instead of the requested {layout}"
                for d in dims:
                    if common.get("g" + d, 0) > 0 and common["g" + d] != int(r[0]["g" + d]):
                        return f"overall size in '{d}' is {r[0]['g' + d]} instead of the requested {common['g' + d]}"
                    if common.get("l" + d, 0) > 0 and common["l" + d] != int(r[0]["l" + d]):
                        return f"local size in '{d}' is {r[0]['l' + d]} instead of the requested {common['l' + d]}"
                    if per and per[k].get("l" + d, 0) > 0 and per[k]["l" + d] != int(r[0]["l" + d]):
                        return f"local size in '{d}' of rank {k} is {r[0]['l' + d]} instead of the requested {per[k]['l' + d]}"
                    if per and "ri" + d in per[k] and per[k]["ri" + d] != int(r[0]["ri" + d]):
                        return f"index in '{d}' of rank {k} is {r[0]['ri' + d]} instead of the requested {per[k]['ri' + d]}"
                w = judge_nest({}, r[0], dims, FOLD[prog], None)
                if w:
                    return w
            vol = 0
            for a in range(n):
                v = 1
                for f, l in boxes[a]:
                    v *= l - f + 1
                vol += v
                for c in range(a):
                    if all(boxes[a][k][0] <= boxes[c][k][1] and boxes[c][k][0] <= boxes[a][k][1] for k in range(len(dims))):
                        return f"ranks {c} and {a} overlap: {boxes[c]} and {boxes[a]}"
            w = 1
            for y in tot:
                w *= y
            if vol != w:
                return f"ranks cover {vol} of {w} points"
            # positions follow the rank indices.
            for k, (r, x) in enumerate(rs):
                for m, (r2, x2) in enumerate(rs):
                    for d in dims:
                        if int(r[0]["ri" + d]) < int(r2[0]["ri" + d]) and r[1][d][0] >= r2[1][d][0] and all(r[0]["ri" + e] == r2[0]["ri" + e] for e in dims if e != d):
                            return f"ranks {k} and {m} are not in the order of their indices in '{d}'"
        J[prog].append((nline(common, n=n, ranks=per), j, f"n={n} {opts_of(common)} ; {' ; '.join(opts_of(x) for x in per)}"))

    fits = lambda g, nr, f: g - (-(-(-(-g // nr)) // f) * f) * (nr - 1) > 0
    for n in range(1, 7 if q else 9):
        for gx in range(1, 25 if q else 34):
            ranks(P1.name, "x", n, {"gx": gx}, must=fits(gx, n, 4))
        lays = [(a, n // a) for a in range(1, n + 1) if n % a == 0]
        for a, c in lays:
            for gx, gy in itertools.product((1, 2, 4, 5, 7, 8, 12, 13), repeat=2) if n < 5 or not q else itertools.product((4, 7, 12, 13), repeat=2):
                m = fits(gx, a, 2) and fits(gy, c, 2)
                ranks(P2.name, "xy", n, {"gx": gx, "gy": gy, "nrx": a, "nry": c}, must=m, layout=(a, c))
                ranks(P2.name, "xy", n, {"gx": gx, "gy": gy, "nry": c}, must=m, layout=(0, c))
                ranks(P2.name, "xy", n, {"gx": gx, "gy": gy, "nrx": a}, must=m, layout=(a, 0))
        for gx in (6, 12):
            ranks(P2.name, "xy", n, {"gx": gx, "gy": 14})
            ranks(P2.name, "xy", n, {"lx": gx, "gy": 14})
            ranks(P2.name, "xy", n, {"lx": gx, "ly": 3}, must=True)
            for bad in range(1, 8):
                ranks(P2.name, "xy", n, {"gx": 12, "gy": 12, "nrx": bad, "nry": 2})
        # both given: only accepted if they agree.
        for g, l in itertools.product(range(1, 13), range(1, 6)):
            ranks(P1.name, "x", n, {"gx": g, "lx": l}, must=(g == l * n))
    # explicit indices and sizes of each rank.
    for perm in itertools.permutations(range(4)):
        for xs, ys in itertools.product(((4, 4), (2, 5), (7, 1)), ((4, 6), (3, 3))):
            per = [{"rix": k // 2, "riy": k % 2, "lx": xs[k // 2], "ly": ys[k % 2]} for k in perm]
            ranks(P2.name, "xy", 4, {"nrx": 2, "nry": 2}, per, must=True, layout=(2, 2))
            for w in range(4):                           # one rank's size or position does not fit.
                for o in ({"lx": 9}, {"ly": 9}, {"rix": 2}, {"riy": -1}):
                    ranks(P2.name, "xy", 4, {"nrx": 2, "nry": 2}, [{**per[k], **(o if k == w else {})} for k in range(4)])
                p = per[w]; z = per[(w + 1) % 4]
                ranks(P2.name, "xy", 4, {"nrx": 2, "nry": 2}, [{**per[k], **({"rix": z["rix"], "riy": z["riy"]} if k == w else {})} for k in range(4)])
    for n in (2, 3):
        for ls in itertools.product((1, 2, 3, 4, 5), repeat=n):
            per = [{"lx": v} for v in ls]
            ranks(P1.name, "x", n, {}, per, must=True)
            for perm in itertools.permutations(range(n)):
                ranks(P1.name, "x", n, {"nrx": n}, [{"lx": ls[k], "rix": perm[k]} for k in range(n)], must=True)

    if replay:
        ls = set(replay["stdin"])
        J = {p: [c for c in J[p] if c[0] in ls] for p in J}
    futs = []
    for p, cases in J.items():
        n = max(1, len(cases) // 2500)
        futs += [build.POOL.leaf(shard, p, cases[i::n]) for i in range(n)]
    for f in futs:
        f.result()
    chk.count(parse_cases=nparse, strings=nstr, nests=sum(len(J[p]) for p in J) - nparse - nstr)
    for p in J:
        for c in J[p][:: max(1, len(J[p]) // 3)][:4]:
            chk.sample(f"{p}: {c[2]}")
    chk.cov["exhaustive"] = True
    chk.cov["bounds"] = "see checks/c17.py: all options x all listed values, all sequences of 2 options and of 3 (4) tokens of a list, all strings up to length 6 (7) over a small alphabet, all tuples of listed sizes for 5 tile levels, all thread counts -1..4 (8), 1..6 (8) ranks"
    chk.assume += ["'010' (octal), leading blanks in a value and an empty item at the end of a list are not judged", "after a refusal, settings of earlier options of the same call may or may not have been set"]
    chk.finish()


if __name__ == "__main__":
    main()
