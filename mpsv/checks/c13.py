"""C13: minimum pressure and pressure gradient."""
from .. import terms as tm
from ..exec import Inv
from ..terms import ZERO, ONE, TRUE, num, arg
from .. import spec

HARNESS = "h_mps"
SOURCES = "all"
CASES = {"quick": 20000, "thorough": 100000}


def ok(pv, i):
    return tm.and_(tm.not_(pv.is_(i, spec.GHOST)), tm.not_(pv.is_(i, spec.DUMMY)))


def verify(c):
    minimum(c)
    gradient(c)


def minimum(c):
    with c.section("MPS::setMinimumPressure"):
        ex = c.executor()
        pv = spec.mps(c, ex)
        re = tm.const("re", "R")
        p = lambda i: pv.init("pressure", i)
        key = pv.cell("minimumPressure")
        inr = pv.inrange
        isz = lambda i, k: tm.and_(tm.le(ZERO, k), tm.lt(k, pv.nsize(i)))
        rk = lambda i, k: tm.app("rev", (i, k), "I")  # index of i in the list of its neighbour nid(i,k)
        att = lambda i, v: tm.app("attained", (i, v), "B")

        def partner(i, k):
            return tm.and_(inr(i), isz(i, k), ok(pv, i), ok(pv, pv.nid(i, k)), tm.lt(pv.ndist(i, k), re))

        nidname = pv.nid(ONE, ONE).args[0]
        base = c.axioms[nidname]

        def nid_ax(i, k):
            j, r = pv.nid(i, k), rk(i, k)
            sym = tm.implies(tm.and_(inr(i), isz(i, k), ok(pv, i)),
                             tm.and_(isz(j, r), tm.eq(pv.nid(j, r), i), tm.eq(pv.ndist(j, r), pv.ndist(i, k))))
            intro = tm.implies(partner(i, k), tm.and_(att(i, p(j)), att(j, p(i))))
            return [base(i, k), sym, intro]

        c.axioms[nidname] = nid_ax
        c.axioms[p(ONE).args[0]] = lambda i: att(i, p(i))
        c.assume_text("the neighbour relation is symmetric with equal distances (postcondition of the neighbour search, C03)")
        v, w = tm.bv("@x"), tm.bv("@y")

        def inv(name, f):
            return Inv(name, [key], f)

        def low(order, own=False):
            def f(get, ks):
                M = lambda i: tm.subst(get(*key), {arg(0): i})
                if len(ks) == 1:
                    proc = tm.lt(v, ks[0])
                elif len(ks) == 2:
                    proc = tm.or_(tm.lt(v, ks[0]), tm.and_(tm.eq(v, ks[0]), tm.lt(w, ks[1])))
                else:
                    return None
                j = pv.nid(v, w)
                g = tm.and_(partner(v, w), proc, order(j, v))
                body = tm.implies(g, tm.and_(tm.le(M(v), p(j)), TRUE if own else tm.le(M(j), p(v))))
                return tm.all_(v, None, None, tm.all_(w, None, None, body))
            return f

        def point(f, done=False):
            def g(get, ks):
                M = lambda i: tm.subst(get(*key), {arg(0): i})
                if done and len(ks) > 2:
                    return None
                hi = pv.N if not done else ks[0] if len(ks) == 1 else tm.add(ks[0], ONE)
                return tm.all_(v, ZERO, hi, f(M, v))
            return g

        cands = [
            inv("not above own pressure", point(lambda M, x: tm.le(M(x), p(x)))),
            inv("ghosts and dummies keep their own pressure", point(lambda M, x: tm.implies(tm.not_(ok(pv, x)), tm.eq(M(x), p(x))))),
            inv("attained", point(lambda M, x: att(x, M(x)))),
            inv("processed: not above own pressure", point(lambda M, x: tm.le(M(x), p(x)), True)),
            inv("processed: attained", point(lambda M, x: att(x, M(x)), True)),
            inv("lower bound, pairs handled from the larger id", low(lambda j, i: tm.le(j, i))),
            inv("lower bound, pairs handled from the smaller id", low(lambda j, i: tm.le(i, j))),
            inv("lower bound, every particle scans its own neighbours", low(lambda j, i: TRUE, own=True)),
        ]
        ex.invariants = lambda e, s: cands
        _, st, _ = c.run("MPS::setMinimumPressure", "MPS", ex=ex, args=[re])
        i, k = tm.fresh("i", "I"), tm.fresh("k", "I")
        M = lambda x: pv.fin(st, "minimumPressure", x)
        hy = list(st.pc) + [inr(i)]
        c.notes.append("loop invariants found inductive: " + str(ex.invlog))
        c.cover("precondition", [inr(i), ok(pv, i), isz(i, k)])
        c.eq("ghost or dummy wall: own pressure", M(i), p(i), hy + [tm.not_(ok(pv, i))])
        c.prove("not above own pressure", tm.le(M(i), p(i)), hy)
        c.prove("not above the pressure of any non-ghost, non-dummy neighbour within the radius", tm.le(M(i), p(pv.nid(i, k))), hy + [partner(i, k)])
        c.prove("is its own pressure or that of such a neighbour", att(i, M(i)), hy)
        c.frame("frame", ex, st, lambda q: q == key, list(st.pc))
        c.safety(ex)
        c.fact("always returns", not ex.exits, str(ex.exits)[:300])
        c.axioms.clear()


def gradient(c):
    with c.section("MPS::calPressureGradient"):
        ex = c.executor()
        pv = spec.mps(c, ex)
        re = spec.const(ex, "settings", "re_forGradient")
        n0 = spec.const(ex, "refValuesForGradient", "n0")
        dim = spec.const(ex, "settings", "dim", sort="I")
        pre = [tm.lt(ZERO, re), tm.lt(ZERO, n0)]
        x = lambda i, a: pv.vec("position", i)[a]
        d2 = lambda i, j: tm.add(*[tm.powi(tm.sub(x(j, a), x(i, a)), 2) for a in range(3)])
        nidname = pv.nid(ONE, ONE).args[0]
        base = c.axioms[nidname]
        c.axioms[nidname] = lambda i, k: [base(i, k), tm.implies(
            tm.and_(pv.inrange(i), tm.le(ZERO, k), tm.lt(k, pv.nsize(i)), tm.not_(pv.is_(i, spec.GHOST))), tm.lt(ZERO, d2(i, pv.nid(i, k))))]
        c.assume_text("neighbours are at distinct positions when the gradient is calculated")
        c.assume_text("reference number density of the gradient radius is positive (C02)")
        _, st, _ = c.run("MPS::calPressureGradient", "MPS", ex=ex, args=[re])
        i = tm.fresh("i", "I")
        v = tm.bv("@k")
        hy = pre + [pv.inrange(i)]
        c.cover("precondition", hy)
        p, pm = (lambda q: pv.init("pressure", q)), pv.init("minimumPressure", i)
        acc, got = pv.vec("acceleration", i), pv.vecf(st, "acceleration", i)
        j = pv.nid(i, v)
        for a in range(3):
            term = tm.mul(tm.sub(p(j), pm), tm.inv(d2(i, j)), tm.sub(x(j, a), x(i, a)), spec.weight(pv.ndist(i, v), re))
            s = tm.sum_(v, ZERO, pv.nsize(i), tm.ite(ok(pv, j), term, ZERO))
            want = tm.sub(acc[a], tm.mul(tm.div(dim, tm.mul(n0, pv.dens(i))), s))
            c.eq(f"acceleration[{a}]", got[a], tm.ite(pv.is_(i, spec.FLUID), want, acc[a]), hy)
        cells = [pv.cell("acceleration", str(a)) for a in range(3)]
        c.frame("frame", ex, st, lambda q: q in cells, pre)
        c.safety(ex, pre)
        c.fact("always returns", not ex.exits, str(ex.exits)[:300])
        # lemma: with the minimum of part one every pair coefficient is repulsive
        pj, mi, dd, r = tm.const("pj"), tm.const("mi"), tm.const("d2"), tm.const("r")
        c.prove("lemma: every pair coefficient is repulsive",
                tm.le(ZERO, tm.mul(tm.div(tm.sub(pj, mi), dd), spec.weight(r, re))),
                pre + [tm.le(mi, pj), tm.lt(ZERO, dd), tm.lt(ZERO, r)])
