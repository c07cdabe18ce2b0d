"""C02: reference number density and Laplacian coefficient are sums over the regular lattice."""
from .. import terms as tm
from ..terms import ZERO, ONE, num
from .. import spec

HARNESS = "h_ref"
SOURCES = ["src/refvalues.cpp", "src/weight.cpp"]
CASES = {"quick": 20000, "thorough": 200000}


def verify(c):
    l0, re = tm.const("l0"), tm.const("re")
    pre = [tm.lt(ZERO, l0), tm.lt(l0, re), tm.le(re, tm.mul(num(5), l0))]
    # the contract of weight() (C01) applied to a site at squared distance k*l0^2
    dist = lambda k: tm.sqrt(tm.mul(num(k), l0, l0))
    w = lambda k: spec.weight(dist(k), re)
    with c.section("lattice"):
        x, y, z = (tm.const(n) for n in "xyz")
        for a in (x, y, z):
            far = tm.or_(tm.le(num(5), a), tm.le(a, num(-5)))
            d2 = tm.mul(tm.add(*[tm.mul(t, t) for t in (x, y, z)]), l0, l0)
            c.prove(f"lemma: sites with |{a.args[0]}| >= 5 have weight zero (the infinite lattice sum is finite)",
                    tm.eq(spec.weight(tm.sqrt(d2), re), ZERO), pre + [far, tm.le(num(25), tm.add(*[tm.mul(t, t) for t in (x, y, z)]))])
            c.prove(f"lemma: |{a.args[0]}| >= 5 implies a squared lattice distance of at least 25",
                    tm.le(num(25), tm.add(*[tm.mul(t, t) for t in (x, y, z)])), [far])
        ks = sorted({a * a + b * b + d * d for a in range(5) for b in range(5) for d in range(5)} - {0})
        lem = []
        for k in ks:
            c.prove(f"lemma: site weight at squared distance {k} is not negative", tm.le(ZERO, w(k)), pre)
            c.prove(f"lemma: (d^2 - re^2) * weight is not positive at squared distance {k}",
                    tm.le(tm.mul(tm.sub(tm.mul(num(k), l0, l0), tm.mul(re, re)), w(k)), ZERO), pre)
        c.prove("lemma: nearest site has a positive weight", tm.lt(ZERO, w(1)), pre)
        c.cover("precondition", pre)
    for dim in (2, 3):
        with c.section(f"RefValues::RefValues ({dim}D)"):
            cnt = {}
            R = range(-4, 5)
            for a in R:
                for b in R:
                    for d in (R if dim == 3 else [0]):
                        k = a * a + b * b + d * d
                        if k:
                            cnt[k] = cnt.get(k, 0) + 1
            n0 = tm.add(*[tm.mul(num(n), w(k)) for k, n in cnt.items()])
            S = tm.add(*[tm.mul(num(n * k), l0, l0, w(k)) for k, n in cnt.items()])
            # positivity and bounds from the site lemmas by linear arithmetic (A_k = weight, B_k = (d^2-re^2)*weight)
            A = {k: tm.const(f"A{k}") for k in cnt}
            B = {k: tm.const(f"B{k}") for k in cnt}
            N, L2, R2 = tm.add(*[tm.mul(num(n), A[k]) for k, n in cnt.items()]), tm.const("l0sq"), tm.const("resq")
            hy = [tm.le(ZERO, A[k]) for k in cnt] + [tm.lt(ZERO, A[1])]
            c.prove("lattice n0 is positive", tm.lt(ZERO, N), hy)
            C = {k: tm.const(f"C{k}") for k in cnt}  # C_k = l0^2 * weight
            hyC = [tm.le(ZERO, C[k]) for k in cnt]
            c.prove("lattice sum of d^2*weight is at least l0^2*n0", tm.le(tm.add(*[tm.mul(num(n), C[k]) for k, n in cnt.items()]),
                    tm.add(*[tm.mul(num(n * k), C[k]) for k, n in cnt.items()])), hyC)
            hyB = [tm.le(B[k], ZERO) for k in cnt]
            c.prove("lattice sum of (d^2-re^2)*weight is not positive", tm.le(tm.add(*[tm.mul(num(n), B[k]) for k, n in cnt.items()]), ZERO), hyB)
            c.eq("... which is sum d^2*weight - re^2*n0", tm.add(*[tm.mul(num(n), tm.sub(tm.mul(num(k), l0, l0), tm.mul(re, re)), w(k)) for k, n in cnt.items()]),
                 tm.sub(S, tm.mul(re, re, n0)))
            s, n = tm.const("S"), tm.const("N")
            c.prove("lambda = S/n0 lies between l0^2 and re^2", tm.and_(tm.le(L2, tm.div(s, n)), tm.le(tm.div(s, n), R2)),
                    [tm.lt(ZERO, n), tm.le(tm.mul(L2, n), s), tm.le(tm.sub(s, tm.mul(R2, n)), ZERO)])
            ex = c.executor()
            _, st, _ = c.run("RefValues::RefValues", "RefValues", 3, ex=ex, args=[num(dim), l0, re])
            g = lambda f: ex.getcell(st, "this", (f,), "R")
            hy = pre + list(st.pc)
            c.eq("n0 is the sum of the weights over the lattice sites", g("n0"), n0, hy)
            pos = [tm.lt(ZERO, n0)]
            c.eq("lambda is the weight-averaged squared distance", g("lambda"), tm.div(S, n0), hy + pos)
            c.safety(ex, pre, extra=lambda o: pos if len(tm.show(o.goal)) > 400 else [])
            c.fact("always returns", not ex.exits, str(ex.exits)[:300])
            c.frame("frame", ex, st, lambda q: q[0] == "this" and q[1] in (("n0",), ("lambda",)), pre)
    c.assume_text("RefValues is constructed with dim 2 or 3 and 0 < l0 < re <= 5 l0 (the stated range of the property)")
