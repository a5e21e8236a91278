"""Configuration-line helpers for mc/grid.cpp."""
import itertools


def runs(t0, d, n):
    """All ways to call run_solution for n steps: one call, n calls, and each 2-way split."""
    out = [f"r{t0}:{t0 + d * (n - 1)}"]
    if n > 1:
        out.append(",".join(f"r{t0 + d * i}:{t0 + d * i}" for i in range(n)))
    for k in range(1, n):
        if n > 2:
            out.append(f"r{t0}:{t0 + d * (k - 1)},r{t0 + d * k}:{t0 + d * (n - 1)}")
    return out


LEVELS = ["Mb", "b", "mb", "nb", "pb"]


def opts(dims, g, lv, temporal=""):
    o = "".join(f" -g{d} {v}" for d, v in zip(dims, g))
    for l, s in lv:
        o += "".join(f" -{l}{d} {v}" for d, v in zip(dims, s) if v)
    return o + temporal


def temporal_set(quick):
    r = [""]
    for M, b in [(1, 2), (2, 0), (2, 2), (3, 0), (3, 2), (3, 3), (4, 2), (5, 0), (4, 4), (0, 3)]:
        r.append((f" -Mbt {M}" if M else "") + (f" -bt {b}" if b else ""))
    return r


class Lines:
    """Ordered set of configuration lines."""
    def __init__(s):
        s.l, s.seen = [], set()

    def add(s, o, ops, t0=0, n=1, th=1, salt=0, to=0, cm=1, mr=None, nodes=None):
        h = f"t0={t0} ops={ops}"
        if n != 1:
            h += f" n={n}"
        if mr if mr is not None else n != 1:
            h += " mr=1"
        if th != 1:
            h += f" th={th} to={to} cm={cm}"
        if nodes:
            h += f" nodes={nodes}"
        if salt:
            h += f" salt={salt}"
        l = f"{h} |{o}"
        if l not in s.seen:
            s.seen.add(l); s.l.append(l)


def grids(n, maxd=None):
    """All ways to arrange n ranks in up to maxd dims."""
    def rec(n, k):
        if k == 1:
            yield (n,); return
        for a in range(1, n + 1):
            if n % a == 0:
                for r in rec(n // a, k - 1):
                    yield (a,) + r
    return list(rec(n, maxd))


def dimopt(name, dims, vals):
    return "".join(f" -{name}{d} {v}" for d, v in zip(dims, vals))
