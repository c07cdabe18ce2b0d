"""C10: free-surface detectors and Dirichlet boundary conditions."""
from .. import terms as tm
from ..check import Missing
from ..exec import LV, State, SV, noref
from ..terms import ZERO, ONE, num, arg
from .. import spec

HARNESS = "h_ppe"
SOURCES = "all"
CASES = {"quick": 15000, "thorough": 60000}


def detector(c, cls, args, expect):
    with c.section(f"SurfaceDetector::{cls}"):
        ex = c.executor()
        q = f"SurfaceDetector::{cls}"
        _, st, _ = c.run(f"{q}::{cls}", q, ex=ex, args=args, nparams=len(args))
        f = c.fn(f"{q}::isFreeSurface")
        names = ["p:" + (p["n"] or "_") for p in f["params"]]
        ps = spec.PView(ex, names[0], ())
        spec.wellformed(c, ex, ps, neighbors=False)
        me = names[1]
        n = spec.const(ex, "numberDensity", root=me)
        sz = spec.const(ex, "neighbors", "#size", sort="I", root=me)
        nid = lambda k: tm.subst(ex.init_cell(me, ("neighbors", "[]", "id"), "I"), {arg(0): k})
        x = [spec.const(ex, "position", str(a), root=me) for a in range(3)]
        c.axioms[nid(ONE).args[0]] = lambda k: tm.implies(tm.and_(tm.le(ZERO, k), tm.lt(k, sz)), ps.inrange(nid(k)))
        st0 = set(st.cells)
        _, st, v = c.run(f"{q}::isFreeSurface", q, ex=ex, st=st)
        v = ex.rv(st, v)
        want = expect(ps, n, sz, nid, x)
        hy = [tm.lt(ZERO, tm.const("a_spacing"))]
        c.prove("true only when the contract says so", tm.implies(v, want), list(st.pc) + hy)
        c.prove("true whenever the contract says so", tm.implies(want, v), list(st.pc) + hy)
        c.frame("frame", ex, st, lambda k: k[0] == "this")
        c.safety(ex, hy)
        c.fact("always returns", not ex.exits, str(ex.exits)[:300])
        # asking twice gives the same answer: the detector's own state is not changed by a query
        st2 = st.copy()
        _, st2, v2 = c.run(f"{q}::isFreeSurface", q, ex=ex, st=st2)
        c.prove("the answer does not depend on earlier queries", tm.iff(ex.rv(st2, v2), want), list(st2.pc) + hy)
        c.arithmetic(ex, hy)
        c.axioms.clear()


def verify(c):
    n0, l0, dr, nr = tm.const("a_n0"), tm.const("a_spacing"), tm.const("a_distributionRatio"), tm.const("a_numberDensityRatio")
    detector(c, "NumberDensity", [nr, n0], lambda ps, n, sz, nid, x: tm.lt(n, tm.mul(nr, n0)))

    def dist(ps, n, sz, nid, x):
        v = tm.bv("@k")
        thr = tm.mul(dr, l0)
        big = []
        for a in range(3):
            s = tm.sum_(v, ZERO, sz, tm.sub(ps.init("position", nid(v), str(a)), x[a]))
            big.append(tm.lt(thr, tm.abs_(s)))
        return tm.and_(tm.lt(n, tm.mul(nr, n0)), tm.or_(tm.eq(sz, ZERO), *big))

    detector(c, "Distribution", [n0, l0, dr, nr], dist)
    generator(c)
    c.assume_text("SurfaceDetector implementations other than those in the sources are not considered; the generator is verified for any detector")


def generator(c):
    G = "PressureCalculator::DirichletBoundaryConditionGenerator::FreeSurface"
    with c.section(G + "::generate"):
        ex = c.executor()
        f = c.fn(G + "::generate")
        root = "p:" + (f["params"][0]["n"] or "_")
        pv = spec.PView(ex, root, ())
        spec.wellformed(c, ex, pv, neighbors=False)
        calls = []

        def det(e_, node, obj, args, st):
            ps, p = args
            if not (isinstance(ps, LV) and ps.root == root and not ps.path):
                raise Missing("the detector is asked about another particle set")
            if isinstance(p, LV) and p.root == root and p.path == pv.base and len(p.idxs) == 1:
                calls.append((p, dict(st.cells)))
                return tm.app("detector", (p.idxs[0],), "B")
            raise Missing("the detector is asked about a copy of a particle")

        ex.virtual["SurfaceDetector::Interface::isFreeSurface"] = det
        D = "PressureCalculator::DirichletBoundaryCondition"
        _, st, r = c.run(G + "::generate", G, ex=ex)
        if isinstance(r, SV):
            r = ex.materialize(st, r, r.ty)
        i = tm.fresh("i", "I")
        det_i = tm.app("detector", (i,), "B")
        bc = pv.fin(st, "boundaryCondition", i, sort="I")
        out = tm.or_(pv.is_(i, spec.GHOST), pv.is_(i, spec.DUMMY))
        hy = list(st.pc) + [pv.inrange(i)]
        c.cover("precondition", hy)
        c.eq("ghost and dummy-wall particles are ignored", bc, num(spec.IGNORED), hy + [out])
        c.eq("detected particles are free surface", bc, num(spec.FREESURFACE), hy + [tm.not_(out), det_i])
        c.eq("the others are inner", bc, num(spec.INNER), hy + [tm.not_(out), tm.not_(det_i)])
        c.frame("frame", ex, st, lambda k: k == pv.cell("boundaryCondition"), list(st.pc))
        S = st.copy()
        mark = len(ex.obls)
        has = ex.rv(S, ex.call_fn(c.fn(D + "::contains"), r, [i], S))
        inner = tm.and_(tm.not_(out), tm.not_(det_i))
        c.prove("a particle that is not inner has prescribed pressure", has, hy + [tm.not_(inner)])
        c.prove("an inner particle has no prescribed pressure", tm.not_(has), hy + [inner])
        c.prove("nothing is prescribed for indices that are no particle", tm.not_(has), list(st.pc) + [tm.not_(pv.inrange(i))])
        S = st.copy()
        val = ex.rv(S, ex.call_fn(c.fn(D + "::value"), r, [i], S))
        c.eq("the prescribed pressure is zero", val, ZERO, hy + [tm.not_(inner)])
        c.safety(ex, hy + [tm.not_(inner)])
        c.fact("always returns", not ex.exits, str(ex.exits)[:300])
        c.axioms.clear()
    with c.section("DirichletBoundaryCondition"):
        ex = c.executor()
        D = "PressureCalculator::DirichletBoundaryCondition"
        k, q, v = tm.fresh("k", "I"), tm.fresh("q", "I"), tm.const("v")
        th = LV("this", (), (), c.rec(D))
        S = State()
        had = ex.rv(S, ex.call_fn(c.fn(D + "::contains"), th, [q], S))
        old = ex.rv(S, ex.call_fn(c.fn(D + "::value"), th, [q], S.copy()))
        ex.obls.clear()
        c.run(D + "::set", D, ex=ex, st=S, args=[k, v])
        has = ex.rv(S, ex.call_fn(c.fn(D + "::contains"), th, [q], S))
        val = ex.rv(S, ex.call_fn(c.fn(D + "::value"), th, [q], S.copy()))
        same = [tm.eq(k, q)]
        c.prove("contains(k) after set(k, v)", has, same)
        c.eq("value(k) after set(k, v) is v", val, v, same)
        c.prove("contains(q) is unaffected by set(k, v)", tm.iff(has, had), [tm.not_(same[0])])
        c.eq("value(q) is unaffected by set(k, v)", val, old, [tm.not_(same[0]), had])
        c.fact("always returns", not ex.exits, str(ex.exits)[:300])
