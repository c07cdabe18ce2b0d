"""C01: the weight function."""
from .. import terms as tm
from ..terms import ZERO, ONE
from .. import spec

HARNESS = "h_weight"
SOURCES = ["src/weight.cpp"]


def verify(c):
    with c.section("weight"):
        f = c.fn("weight")
        if len(f["params"]) != 2:
            raise spec.Missing("weight(distance, re) has another signature")
        ex = c.executor()
        st = __import__("mpsv.exec", fromlist=["State"]).State()
        d, re = tm.const("dis", "R"), tm.const("re", "R")
        pre = [tm.lt(ZERO, d), tm.lt(ZERO, re)]
        c.cover("precondition", pre)
        _, st, w = c.run("weight", ex=ex, st=st, args=[d, re])
        c.eq("equals re/r-1 for r<re", w, tm.sub(tm.div(re, d), ONE), pre + [tm.lt(d, re)])
        c.eq("equals 0 for r>=re", w, ZERO, pre + [tm.le(re, d)])
        c.prove("never negative", tm.le(ZERO, w), pre)
        d2 = tm.const("dis2", "R")
        w2 = tm.subst(w, {d: d2})
        c.prove("never increases with distance", tm.le(w2, w), pre + [tm.le(d, d2)])
        eps = tm.const("eps", "R")
        c.prove("vanishes continuously at re", tm.lt(w, eps), pre + [tm.lt(ZERO, eps), tm.lt(tm.sub(re, d), tm.mul(eps, d))])
        c.frame("frame", ex, st, lambda k: False)
        c.safety(ex, pre, name="definedness")
        c.fact("no abnormal exit", not ex.exits, str(ex.exits)[:300])
