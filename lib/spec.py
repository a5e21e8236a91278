"""Program specs: one description, printed as YASK DSL and as an independent evaluator.

A spec is data: variables, equations, conditions.  `dsl()` prints the C++ of a YASK solution class (the program
under test); `ref()` prints C++ for mc/ref.hpp, in which every equation is a plain function of (step, point).
"""


class E:
    def __add__(s, o): return Bin("+", s, lift(o))
    def __radd__(s, o): return Bin("+", lift(o), s)
    def __sub__(s, o): return Bin("-", s, lift(o))
    def __rsub__(s, o): return Bin("-", lift(o), s)
    def __mul__(s, o): return Bin("*", s, lift(o))
    def __rmul__(s, o): return Bin("*", lift(o), s)
    def __truediv__(s, o): return Bin("/", s, lift(o))
    def __rtruediv__(s, o): return Bin("/", lift(o), s)
    def __mod__(s, o): return Bin("%", s, lift(o))
    def __neg__(s): return Neg(s)
    def __lt__(s, o): return Cmp("<", s, lift(o))
    def __le__(s, o): return Cmp("<=", s, lift(o))
    def __gt__(s, o): return Cmp(">", s, lift(o))
    def __ge__(s, o): return Cmp(">=", s, lift(o))
    def eq(s, o): return Cmp("==", s, lift(o))
    def ne(s, o): return Cmp("!=", s, lift(o))


class B:
    def __and__(s, o): return Log("&&", s, o)
    def __or__(s, o): return Log("||", s, o)
    def __invert__(s): return Not(s)


def lift(v):
    return v if isinstance(v, E) else Num(v)


class Num(E):
    def __init__(s, v): s.v = v
    def dsl(s): return f"new_number_node({float(s.v)!r})"
    def ref(s, sp): return f"({float(s.v)!r})"


class Idx(E):
    """Value of a step/domain index."""
    def __init__(s, d): s.d = d
    def dsl(s): return f"({s.d}+0)" if False else s.d
    def ref(s, sp): return "double(t)" if s.d == sp.step else f"double(p[{sp.dims.index(s.d)}])"


class First(E):
    def __init__(s, d): s.d = d
    def dsl(s): return f"first_domain_index({s.d})"
    def ref(s, sp): return f"double(c.first[{sp.dims.index(s.d)}])"


class Last(E):
    def __init__(s, d): s.d = d
    def dsl(s): return f"last_domain_index({s.d})"
    def ref(s, sp): return f"double(c.last[{sp.dims.index(s.d)}])"


class Bin(E):
    def __init__(s, op, a, b): s.op, s.a, s.b = op, a, b
    def dsl(s): return f"({s.a.dsl()} {s.op} {s.b.dsl()})"
    def ref(s, sp):
        if s.op == "%":
            return f"yv_imod({s.a.ref(sp)}, {s.b.ref(sp)})"
        return f"({s.a.ref(sp)} {s.op} {s.b.ref(sp)})"


class Neg(E):
    def __init__(s, a): s.a = a
    def dsl(s): return f"(-{s.a.dsl()})"
    def ref(s, sp): return f"(-{s.a.ref(sp)})"


class Fn(E):
    """sqrt, fabs, min, pow, ... of the DSL."""
    def __init__(s, f, *args): s.f, s.args = f, [lift(a) for a in args]
    def dsl(s): return f"yask::{s.f}({', '.join(a.dsl() for a in s.args)})"
    def ref(s, sp): return f"std::{s.f}({', '.join('double(' + a.ref(sp) + ')' for a in s.args)})"


class Shared(E):
    """A node object that several expressions refer to; 'name' is a variable of the C++ program."""
    def __init__(s, name, e): s.name, s.e = name, e
    def dsl(s): return s.name
    def ref(s, sp): return s.e.ref(sp)
    def decl(s): return f"    auto {s.name} = {s.e.dsl()};"


class Cmp(B):
    def __init__(s, op, a, b): s.op, s.a, s.b = op, a, b
    def dsl(s): return f"({s.a.dsl()} {s.op} {s.b.dsl()})"
    def ref(s, sp): return f"({s.a.ref(sp)} {s.op} {s.b.ref(sp)})"


class Log(B):
    def __init__(s, op, a, b): s.op, s.a, s.b = op, a, b
    def dsl(s): return f"({s.a.dsl()} {s.op} {s.b.dsl()})"
    def ref(s, sp): return f"({s.a.ref(sp)} {s.op} {s.b.ref(sp)})"


class Not(B):
    def __init__(s, a): s.a = a
    def dsl(s): return f"(!{s.a.dsl()})"
    def ref(s, sp): return f"(!{s.a.ref(sp)})"


class Var:
    def __init__(s, name, dims, scratch=False):
        s.name, s.dims, s.scratch = name, list(dims), scratch

    def __call__(s, *offs):
        """Offsets per dim in dim order: ints relative to the current index (step and domain dims),
        absolute for misc dims."""
        return Read(s, offs)


class Read(E):
    def __init__(s, var, offs):
        assert len(offs) == len(var.dims), (var.name, offs)
        s.var, s.offs = var, list(offs)
    def dsl(s):
        a = []
        for d, o in zip(s.var.dims, s.offs):
            if d.islower() and not d.startswith("m"):
                a.append(d if o == 0 else f"{d}{o:+d}")
            else:
                a.append(str(o))
        return f"{s.var.name}({', '.join(a)})" if a else f"{s.var.name}()"
    def ref(s, sp):
        v = sp.vars.index(s.var)
        st, rest = "t", []
        for d, o in zip(s.var.dims, s.offs):
            if d == sp.step:
                st = f"t{o:+d}"
            elif d in sp.dims:
                rest.append(f"p[{sp.dims.index(d)}]{o:+d}")
            else:
                rest.append(str(o))
        f = "rs" if s.var.scratch else "rd"
        return f"c.{f}({v}, {st}{''.join(', ' + r for r in rest)})"


class Eq:
    def __init__(s, lhs, rhs, domain=None, step=None):
        s.lhs, s.rhs, s.domain, s.step = lhs, lift(rhs), domain, step


class Spec:
    """dims: domain dims in order; misc dims must be named m*; step is 't'.
    Equations must be listed in a data-flow order (that is the spec author's statement of it)."""
    def __init__(s, name, dims, vars, eqs, step="t", dirn=1, calls=(), extra_dsl="", order=None):
        s.order = order            # order of the equations in the DSL (default: as listed)
        s.name, s.dims, s.vars, s.eqs, s.step, s.dirn = name, list(dims), vars, eqs, step, dirn
        s.extra_dsl = extra_dsl
        s.misc = []
        for v in vars:
            for d in v.dims:
                if d != step and d not in s.dims and d not in s.misc:
                    s.misc.append(d)

    def dsl(s, order=None):
        o = [f"class C_{s.name} : public yc_solution_base {{ public:",
             f'  C_{s.name}() : yc_solution_base("{s.name}") {{ }}',
             f"  MAKE_STEP_INDEX({s.step});"]
        o += [f"  MAKE_DOMAIN_INDEX({d});" for d in s.dims]
        o += [f"  MAKE_MISC_INDEX({d});" for d in s.misc]
        for v in s.vars:
            k = "MAKE_SCRATCH_VAR" if v.scratch else "MAKE_VAR"
            o.append(f"  {k}({', '.join([v.name] + v.dims)});" if v.dims else f"  MAKE_SCALAR_VAR({v.name});")
        o.append("  virtual void define() override {")
        if s.extra_dsl:
            o.append(s.extra_dsl)
        order = order or s.order
        eqs = s.eqs if order is None else [s.eqs[i] for i in order]
        for e in eqs:
            c = ""
            if e.domain is not None:
                c += " IF_DOMAIN " + e.domain.dsl()
            if e.step is not None:
                c += " IF_STEP " + e.step.dsl()
            if e.domain is not None and e.step is not None:
                o.append(f"    {{ auto eq_ = ({e.lhs.dsl()} EQUALS {e.rhs.dsl()}); eq_->set_cond({e.domain.dsl()}); eq_->set_step_cond({e.step.dsl()}); }}")
            else:
                o.append(f"    {e.lhs.dsl()} EQUALS {e.rhs.dsl()}{c};")
        o += ["  }", "};", f"REGISTER_SOLUTION(C_{s.name});"]
        return "\n".join(o) + "\n"

    def ref(s, symbol="the_spec"):
        o = ['#include "ref.hpp"', "namespace {", "using namespace yvref;"]
        eqs = []
        for i, e in enumerate(s.eqs):
            o.append(f"double e{i}(Ctx& c, long t, const long* p) {{ return {e.rhs.ref(s)}; }}")
            if e.domain is not None:
                o.append(f"bool d{i}(Ctx& c, long t, const long* p) {{ return {e.domain.ref(s)}; }}")
            if e.step is not None:
                o.append(f"bool s{i}(Ctx& c, long t, const long* p) {{ return {e.step.ref(s)}; }}")
            v = e.lhs.var
            so, misc = 0, []
            for d, of in zip(v.dims, e.lhs.offs):
                if d == s.step:
                    so = of
                elif d not in s.dims:
                    misc.append(str(of))
                else:
                    assert of == 0
            eqs.append(f"{{ {s.vars.index(v)}, {so}, {{{', '.join(misc)}}}, e{i}, "
                       f"{f'd{i}' if e.domain is not None else 'nullptr'}, {f's{i}' if e.step is not None else 'nullptr'} }}")
        o.append("}")
        vs = []
        for v in s.vars:
            kinds = ["-1" if d == s.step else (str(s.dims.index(d)) if d in s.dims else "100") for d in v.dims]
            vs.append(f'{{ "{v.name}", {{{", ".join(chr(34)+d+chr(34) for d in v.dims)}}}, {{{", ".join(kinds)}}}, {"true" if v.scratch else "false"} }}')
        o.append(f'yvref::Spec yvref::{symbol} {{ "{s.name}", "{s.step}", {{{", ".join(chr(34)+d+chr(34) for d in s.dims)}}}, {s.dirn},')
        o.append("  { " + ",\n    ".join(vs) + " },")
        o.append("  { " + ",\n    ".join(eqs) + " } };")
        return "\n".join(o) + "\n"


def dsl_file(specs):
    return '#include "yask_compiler_api.hpp"\nusing namespace std;\nusing namespace yask;\nnamespace {\n' + \
        "".join(s.dsl() for s in specs) + "}\n"
