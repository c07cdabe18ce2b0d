"""C09: number density."""
from .. import terms as tm
from ..terms import ZERO, ONE, num
from .. import spec

HARNESS = "h_mps"
CASES = {"quick": 20000, "thorough": 100000}
SOURCES = "all"


def verify(c):
    with c.section("MPS::calNumberDensity"):
        ex = c.executor()
        pv = spec.mps(c, ex)
        re = tm.const("re", "R")
        pre = [tm.lt(ZERO, re)]
        _, st, _ = c.run("MPS::calNumberDensity", "MPS", ex=ex, args=[re])
        i = tm.fresh("i", "I")
        v = tm.bv("@k")
        hy = pre + [pv.inrange(i)]
        c.cover("precondition", hy)
        want = tm.ite(pv.is_(i, spec.GHOST), ZERO, tm.sum_(v, ZERO, pv.nsize(i), spec.weight(pv.ndist(i, v), re)))
        c.eq("numberDensity[i] = sum of neighbour weights (0 for ghosts)", pv.fin(st, "numberDensity", i), want, hy)
        c.frame("frame", ex, st, lambda k: k == pv.cell("numberDensity"), pre)
        c.safety(ex, pre)
        c.fact("always returns", not ex.exits, str(ex.exits)[:300])
