"""C11: assembly of the pressure Poisson system."""
from .. import terms as tm
from ..terms import ZERO
from .. import spec
from .ppe import Implicit, assembled

HARNESS = "h_ppe"
SOURCES = "all"
CASES = {"quick": 15000, "thorough": 60000}


def verify(c):
    with c.section("Implicit::calc (assembly)"):
        m = Implicit(c)
        ex, pv, pre = m.ex, m.pv, m.pre
        c.cover("precondition", pre + [tm.lt(ZERO, pv.N)])
        c.fact("boundary conditions are generated before the system is set up", m.gens == 1)
        coef, i, w, hy = assembled(c, m)
        c.frame("frame", ex, m.st, lambda k: k[0] in ("this", "dbc") or k == pv.cell("boundaryCondition"), list(m.st.pc))
        c.safety(ex, pre)
        # lemmas over the contract
        part, cf = coef(i, w)
        s = tm.sum_(w, ZERO, pv.nsize(i), tm.ite(part, cf, ZERO))
        off = tm.sum_(w, ZERO, pv.nsize(i), tm.ite(part, tm.neg(cf), ZERO))
        c.eq("lemma: every other row sums to compressibility/dt^2", tm.add(off, s, tm.div(m.comp, tm.powi(m.dt, 2))), tm.div(m.comp, tm.powi(m.dt, 2)), hy)
        k = tm.fresh("k", "I")
        part, cf = coef(i, k)
        c.prove("lemma: off-diagonal entries are not positive, hence the rows are diagonally dominant", tm.le(ZERO, cf),
                hy + [tm.le(ZERO, k), tm.lt(k, pv.nsize(i)), part])
        c.axioms.clear()
