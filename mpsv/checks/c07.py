"""C07: viscosity."""
from .. import terms as tm
from ..terms import ZERO, ONE, num
from .. import spec

HARNESS = "h_mps"
CASES = {"quick": 20000, "thorough": 100000}
SOURCES = "all"


def verify(c):
    with c.section("MPS::calViscosity"):
        ex = c.executor()
        pv = spec.mps(c, ex)
        re = spec.const(ex, "settings", "re_forLaplacian")
        n0 = spec.const(ex, "refValuesForLaplacian", "n0")
        la = spec.const(ex, "refValuesForLaplacian", "lambda")
        nu = spec.const(ex, "settings", "kinematicViscosity")
        dim = spec.const(ex, "settings", "dim", sort="I")
        pre = [tm.lt(ZERO, re), tm.lt(ZERO, n0), tm.lt(ZERO, la)]
        c.assume_text("reference values of the Laplacian radius are positive (C02)")
        _, st, _ = c.run("MPS::calViscosity", "MPS", ex=ex, args=[re])
        i = tm.fresh("i", "I")
        v = tm.bv("@k")
        hy = pre + [pv.inrange(i)]
        c.cover("precondition", hy)
        a0 = tm.div(tm.mul(nu, num(2), dim), tm.mul(n0, la))
        vi = pv.vec("velocity", i)
        acc = pv.vec("acceleration", i)
        got = pv.vecf(st, "acceleration", i)

        def contrib(i, j, d, a):
            return tm.mul(tm.sub(pv.vec("velocity", j)[a], pv.vec("velocity", i)[a]), spec.weight(d, re))

        for a in range(3):
            s = tm.sum_(v, ZERO, pv.nsize(i), contrib(i, pv.nid(i, v), pv.ndist(i, v), a))
            c.eq(f"acceleration[{a}]", got[a], tm.ite(pv.is_(i, spec.FLUID), tm.add(acc[a], tm.mul(a0, s)), acc[a]), hy)
        cells = [pv.cell("acceleration", str(a)) for a in range(3)]
        c.frame("frame", ex, st, lambda k: k in cells, pre)
        c.safety(ex, pre)
        c.fact("always returns", not ex.exits, str(ex.exits)[:300])
        # lemmas over the contract
        ii, jj = tm.fresh("i", "I"), tm.fresh("j", "I")
        d = tm.fresh("d", "R")
        for a in range(3):
            c.eq(f"lemma: contributions of a pair are opposite [{a}]", tm.add(contrib(ii, jj, d, a), contrib(jj, ii, d, a)), ZERO, [tm.lt(ZERO, d)])
            u = tm.const(f"u{a}", "R")
            c.eq(f"lemma: a uniform velocity field gives no viscous acceleration [{a}]", contrib(ii, jj, d, a), ZERO,
                 [tm.eq(pv.vec("velocity", ii)[a], u), tm.eq(pv.vec("velocity", jj)[a], u)])
