"""Small programs, enumerated by a check and merged into solutions of many programs with disjoint variables, so that
thousands of generated programs can be compiled and run.  Every program is a list of nodes (variables or slices of a
variable along a misc dim), each defined by one or more equations; reads are (node, step offset, domain offsets)."""
import itertools
from spec import *


class Prog:
    """vars: [Var]; eqs: [Eq] in any order; 'deps' decides a data-flow order for the evaluator."""
    def __init__(s, tag, vars, eqs):
        s.tag, s.vars, s.eqs = tag, vars, eqs


def node_of(r, step="t"):
    """The thing an equation defines: the variable and its misc indices (and whether it is a same-step value)."""
    v = r.var
    return (v.name,) + tuple(o for d, o in zip(v.dims, r.offs) if d.startswith("m"))


def reads(e):
    if isinstance(e, Read):
        yield e
    for k in ("a", "b", "e"):
        if hasattr(e, k) and not isinstance(e, Read) and isinstance(getattr(e, k), (E, B)):
            yield from reads(getattr(e, k))
    for a in getattr(e, "args", ()):
        yield from reads(a)


def sofs(r, step="t"):
    for d, o in zip(r.var.dims, r.offs):
        if d == step:
            return o
    return None


def topo(eqs):
    """Order in which each equation comes after all those that define the same-step values it reads; None if none."""
    defs = {}
    for i, q in enumerate(eqs):
        defs.setdefault((node_of(q.lhs), sofs(q.lhs)), []).append(i)
    need = {i: set() for i in range(len(eqs))}
    for i, q in enumerate(eqs):
        for r in reads(q.rhs):
            for j in defs.get((node_of(r), sofs(r)), ()):
                need[i].add(j)
    out, left = [], set(range(len(eqs)))
    while left:
        ok = sorted(i for i in left if not (need[i] & left))
        if not ok:
            return None
        out += ok; left -= set(ok)
    return out


def merge(name, dims, progs, dirn=1):
    """One solution made of all programs; DSL order = the order of each program, programs one after another."""
    vars, eqs, order, tags = [], [], [], {}
    for k, p in enumerate(progs):
        o = topo(p.eqs)
        assert o is not None, p.tag
        base = len(eqs)
        for v in p.vars:
            v.name = f"{v.name}_{k}"
            tags[v.name] = p.tag
        vars += p.vars
        eqs += [p.eqs[i] for i in o]
        pos = {i: base + n for n, i in enumerate(o)}
        order += [pos[i] for i in range(len(p.eqs))]
    sp = Spec(name, dims, vars, eqs, dirn=dirn, order=order)
    sp.tags = tags
    return sp


def batches(name, dims, progs, dirn=1, maxeqs=300):
    out, cur, n = [], [], 0
    for p in progs:
        if n + len(p.eqs) > maxeqs and cur:
            out.append(cur); cur, n = [], 0
        cur.append(p); n += len(p.eqs)
    if cur:
        out.append(cur)
    return [merge(f"{name}{i}", dims, c, dirn) for i, c in enumerate(out)]
