"""C12: calculated pressures."""
from .. import terms as tm
from ..check import Missing
from ..exec import LV, SV
from ..terms import ZERO, ONE, num, arg
from .. import spec
from .ppe import Implicit, precision

HARNESS = "h_ppe"
SOURCES = "all"
CASES = {"quick": 15000, "thorough": 60000}


def vec(ex, st, r, i):
    """(size, element i) of a returned std::vector<double>"""
    if isinstance(r, SV):
        r = ex.materialize(st, r, r.ty)
    return ex.size_of(st, r), tm.subst(ex.read_leaf(st, r, ("[]",), "R"), {arg(0): i})


def verify(c):
    explicit(c)
    implicit(c)


def explicit(c):
    E = "PressureCalculator::Explicit"
    with c.section(E + "::calc"):
        ex = c.executor()
        spec.refvalues_ext(c, ex)
        re, cs, dim, l0 = tm.const("a_re"), tm.const("a_soundSpeed"), tm.const("a_dim", "I"), tm.const("a_l0")
        _, st, _ = c.run(E + "::Explicit", E, ex=ex, args=[re, cs, dim, l0])
        S = spec.after_ctor(ex, st, "this")
        f = c.fn(E + "::calc")
        root = "p:" + (f["params"][0]["n"] or "_")
        pv = spec.PView(ex, root, ())
        spec.wellformed(c, ex, pv)
        _, st, r = c.run(E + "::calc", E, ex=ex, st=S.copy())
        i = tm.fresh("i", "I")
        n, p = vec(ex, st, r, i)
        n0 = tm.app("refN0", (dim, l0, re), "R")
        ni = pv.init("numberDensity", i)
        hy = list(st.pc) + [pv.inrange(i)]
        above = tm.and_(tm.not_(pv.is_(i, spec.GHOST)), tm.lt(n0, ni))
        c.cover("precondition", hy + [above])
        c.eq("one pressure per particle", n, pv.N, list(st.pc))
        c.eq("equation of state above n0", p, tm.div(tm.mul(cs, cs, pv.dens(i), tm.sub(ni, n0)), n0), hy + [above])
        c.eq("zero otherwise", p, ZERO, hy + [tm.not_(above)])
        c.prove("never negative", tm.le(ZERO, p), hy)
        c.frame("frame", ex, st, lambda k: k[0] == "this", list(st.pc))
        c.safety(ex)
        spec.stable(c, ex, S, st)
        c.fact("always returns", not ex.exits, str(ex.exits)[:300])
        c.axioms.clear()


def implicit(c):
    with c.section("Implicit::calc (result)"):
        m = Implicit(c)
        ex, pv, st = m.ex, m.pv, m.st
        i = tm.fresh("i", "I")
        n, p = vec(ex, st, m.ret, i)
        hy = m.pre + list(st.pc) + [pv.inrange(i)]
        sol = tm.subst(m.solve["sol"], {arg(0): i})
        status = m.solve["status"]
        c.cover("precondition", hy)
        c.eq("one pressure per particle", n, pv.N, m.pre + list(st.pc))
        c.eq("solution with negative entries replaced by zero", p, tm.ite(tm.lt(sol, ZERO), ZERO, sol), hy)
        c.prove("never negative", tm.le(ZERO, p), hy)
        c.prove("returns only when the solver reports success", tm.eq(status, ZERO), m.pre + list(st.pc))
        precision(c, m)
        gone = []
        for q, (kind, pc, S, wh) in enumerate(ex.exits):
            code = S.cells.get(("#exit", ())) if S is not None else None
            gone.append(tm.and_(*pc))
            if kind in ("exit", "quick_exit", "_Exit"):
                c.prove(f"terminates with an error status at {wh}", tm.not_(tm.eq(tm.imod(code, num(256)), ZERO)), list(pc), wh)
            c.prove(f"terminates only when the solver reports failure at {wh}", tm.not_(tm.eq(status, ZERO)), list(pc) + m.pre, wh)
        c.prove("terminates whenever the solver reports failure", tm.or_(*gone), m.pre + [tm.not_(tm.eq(status, ZERO))])
        spec.stable(c, ex, m.S0, st)
        c.arithmetic(ex, m.pre)
        c.axioms.clear()
