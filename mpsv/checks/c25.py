"""C25: the returned pressures solve the assembled system. The solver itself is a dependency with an assumed contract."""
from .. import terms as tm
from ..terms import ZERO, arg
from .. import spec
from .ppe import Implicit, assembled, precision
from .c12 import vec

HARNESS = "h_ppe"
SOURCES = "all"
CASES = {"quick": 6000, "thorough": 40000}
LEVEL_NOTE = "The linear solver (Eigen) enters through an assumed contract: reported success means a residual within the tolerance asked for."


def verify(c):
    c.assume_text("contract of Eigen's iterative solver: when solve(b) is followed by info() == Success, the vector x it returned satisfies "
                  "|A x - b| <= tolerance * |b| for the matrix A given to compute(), tolerance being machine epsilon unless setTolerance is called; "
                  "a direct solver solves exactly. The replay harness measures the residual of the compiled code")
    with c.section("Implicit::calc (solution)"):
        m = Implicit(c)
        ex, pv, st = m.ex, m.pv, m.st
        c.cover("precondition", m.pre + [tm.lt(ZERO, pv.N)])
        c.fact("boundary conditions are generated before the system is set up", m.gens == 1)
        assembled(c, m)
        i = tm.fresh("i", "I")
        n, p = vec(ex, st, m.ret, i)
        hy = m.pre + list(st.pc) + [pv.inrange(i)]
        sol = tm.subst(m.solve["sol"], {arg(0): i})
        c.prove("values are returned only after the solver reported success for this system", tm.eq(m.solve["status"], ZERO), m.pre + list(st.pc))
        c.eq("one value of the solution vector per particle", n, m.solve["n"], m.pre + list(st.pc))
        c.eq("the value returned for a particle is the solver's own, unaltered, wherever clipping does not apply", p, sol, hy + [tm.not_(tm.lt(sol, ZERO))])
        c.eq("and zero where it does", p, ZERO, hy + [tm.lt(sol, ZERO)])
        precision(c, m)
        spec.stable(c, ex, m.S0, st)
        c.arithmetic(ex, m.pre)
        c.axioms.clear()
