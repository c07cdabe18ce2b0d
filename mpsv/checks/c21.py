"""C21: the simulation object is built from the settings that belong to each component."""
from .. import terms as tm, spec
from ..exec import LV, SV, PI, strip_templates
from ..check import Missing
from ..terms import ZERO, ONE, num, TRUE, FALSE, arg

HARNESS = "h_io"
SOURCES = "all"
CASES = {"quick": 10000, "thorough": 12000}

MPI = num(PI)


def choose(ex, t, st):
    """the object behind a pointer term under the path condition"""
    while t.op == "ite":
        c = ex.simp(st, t.args[0])
        if c is TRUE:
            t = t.args[1]
        elif c is FALSE:
            t = t.args[2]
        elif ex.prover.prove(t.args[0], st.pc).ok:
            t = t.args[1]
        elif ex.prover.prove(tm.not_(t.args[0]), st.pc).ok:
            t = t.args[2]
        else:
            raise Missing("which object a pointer refers to is not decided by the settings: " + tm.show(t)[:200])
    if not (t.op == "app" and t.args[0].startswith("&")):
        raise Missing("pointer to an unknown object: " + tm.show(t)[:200])
    r = t.args[0][1:]
    return LV(r, (), (), ex.heap[r])


def verify(c):
    with c.section("MPSFactory::create"):
        ex = c.executor()
        spec.refvalues_ext(c, ex)
        calls = []

        def ns(e_, node, lv, args, st):
            if not args:
                return
            a = [e_.rv(st, x) for x in args]
            if len(a) != 3:
                raise Missing("the neighbour searcher is constructed from other arguments")
            dom = a[1]
            if not isinstance(dom, SV):
                raise Missing("the neighbour searcher is constructed from other arguments")
            calls.append((a[0], dom, a[2], list(st.pc)))

        ex.ext["NeighborSearcher::NeighborSearcher"] = ns
        inp = LV("p:input", (), (), c.rec("Input"))
        I = lambda *p, sort="R": ex.init_cell("p:input", p, sort)
        S = lambda f, sort="R": I("settings", f, sort=sort)
        _, st, v = c.run("MPSFactory::create", None, ex=ex, args=[inp])
        c.assume_text("the neighbour searcher is used through its contract (C03, C04)")
        m = ex.materialize(st, v, c.rec("MPS"))
        base = list(st.pc)
        leaf = lambda lv, rel, sort: ex.read_leaf(st, lv, rel, sort)
        pi = ex.prog
        # gravity
        th = tm.mul(S("gAngle"), MPI, tm.inv(num(180)))
        polar = [tm.mul(S("gNorm"), tm.app("sin", (th,), "R")), tm.neg(tm.mul(S("gNorm"), tm.app("cos", (th,), "R"))), ZERO]
        for a in range(3):
            want = tm.ite(S("xyzInput", "B"), I("settings", "gravity", str(a)), polar[a])
            with c.replay_decides():
                c.eq(f"gravity[{a}]", leaf(m, ("gravity", str(a)), "R"), want, base)
        # reference values
        dim, l0 = S("dim", "I"), S("particleDistance")
        n0 = lambda re: tm.app("refN0", (dim, l0, re), "R")
        lam = lambda re: tm.app("refLambda", (dim, l0, re), "R")
        for nm in ("NumberDensity", "Gradient", "Laplacian"):
            re = S("re_for" + nm)
            c.eq(f"n0 for {nm}", leaf(m, ("refValuesFor" + nm, "n0"), "R"), n0(re), base)
            c.eq(f"lambda for {nm}", leaf(m, ("refValuesFor" + nm, "lambda"), "R"), lam(re), base)
        # unchanged inputs
        for part in ("settings", "particles"):
            rec = c.rec({"settings": "Settings", "particles": "Particles"}[part])
            for rel, s in ex.leaves(rec):
                if rel[-1] == "#stream":
                    continue
                k = [tm.fresh("x", "I") for _ in range(rel.count("[]"))]
                mm = {arg(i): x for i, x in enumerate(k)}
                c.eq(part + "." + ".".join(rel), tm.subst(leaf(m, (part,) + rel, s), mm), tm.subst(I(part, *rel, sort=s), mm), base)
        for rel, s in ex.leaves(c.rec("Domain")):
            c.eq("domain." + ".".join(rel), leaf(m, ("domain",) + rel, s), I("settings", "domain", *rel, sort=s), base)
        c.fact("one neighbour searcher is built", len(calls) == 1, str(len(calls))) if len(calls) == 1 else c.undecided("one neighbour searcher is built", str(len(calls)))
        re, dom, n, pc = calls[0]
        c.eq("search radius", re, S("reMax"), pc)
        c.eq("search size", n, I("particles", "particles", "#size", sort="I"), pc)
        for rel, s in ex.leaves(c.rec("Domain")):
            c.eq("search domain." + ".".join(rel), dom.leaves[rel], I("settings", "domain", *rel, sort=s), pc)
        # pressure calculator
        meth, imp, exp = S("pressureCalculationMethod", "S"), tm.strc("Implicit"), tm.strc("Explicit")
        ptr = leaf(m, ("pressureCalculator", "#ptr"), "O")
        X = st.copy().assume(tm.eq(meth, exp)).assume(tm.not_(tm.eq(meth, imp)))
        o = choose(ex, ptr, X)
        kind(c, ex, "Explicit selects the explicit method", o, "PressureCalculator::Explicit")
        hx = list(X.pc)
        c.eq("explicit n0", leaf(o, ("n0",), "R"), n0(S("re_forNumberDensity")), hx)
        c.eq("explicit speed of sound", leaf(o, ("soundSpeed",), "R"), S("soundSpeed"), hx)
        X = st.copy().assume(tm.eq(meth, imp)).assume(tm.not_(tm.eq(meth, exp)))
        o = choose(ex, ptr, X)
        kind(c, ex, "Implicit selects the implicit method", o, "PressureCalculator::Implicit")
        hx = list(X.pc)
        q = "pressurePoissonEquation"
        rn, rl = S("re_forNumberDensity"), S("re_forLaplacian")
        for f, s, want in (("dimension", "I", dim), ("dt", "R", S("dt")), ("relaxationCoefficient", "R", S("relaxationCoefficientForPressure")),
                           ("compressibility", "R", S("compressibility")), ("n0_forNumberDensity", "R", n0(rn)), ("n0_forLaplacian", "R", n0(rl)),
                           ("lambda0", "R", lam(rl)), ("reForLaplacian", "R", rl), ("reForNumberDensity", "R", rn)):
            if not any(rel == (q, f) for rel, _ in ex.leaves(o.ty)):
                raise Missing("member " + f + " of the pressure Poisson equation")
            c.eq("implicit " + f, leaf(o, (q, f), s), want, hx)
        # free surface detector
        gen = choose(ex, leaf(o, ("dirichletBoundaryConditionGenerator", "#ptr"), "O"), X)
        kind(c, ex, "boundary condition generator", gen, "PressureCalculator::DirichletBoundaryConditionGenerator::FreeSurface")
        flag = S("surfaceDetection_particleDistribution", "B")
        dp = leaf(gen, ("surfaceDetector", "#ptr"), "O")
        Y = X.copy().assume(flag)
        d = choose(ex, dp, Y)
        kind(c, ex, "distribution flag selects the distribution detector", d, "SurfaceDetector::Distribution")
        for f, want in (("n0", n0(rn)), ("particleDistance", l0), ("distributionThresholdRatio", S("surfaceDetection_particleDistribution_threshold")),
                        ("numberDensityThresholdRatio", S("surfaceDetection_numberDensity_threshold"))):
            member(c, ex, d, f)
            c.eq("distribution detector " + f, leaf(d, (f,), "R"), want, list(Y.pc))
        Y = X.copy().assume(tm.not_(flag))
        d = choose(ex, dp, Y)
        kind(c, ex, "otherwise the number density detector", d, "SurfaceDetector::NumberDensity")
        for f, want in (("n0", n0(rn)), ("thresholdRatio", S("surfaceDetection_numberDensity_threshold"))):
            member(c, ex, d, f)
            c.eq("number density detector " + f, leaf(d, (f,), "R"), want, list(Y.pc))
        # any other method name ends the program with an error
        c.prove("normal return only for the two methods", tm.or_(tm.eq(meth, imp), tm.eq(meth, exp)), base)
        for kind_, pc, S_, where in ex.exits:
            c.prove(f"{kind_} at {where} only for another method name", tm.not_(tm.or_(tm.eq(meth, imp), tm.eq(meth, exp))), pc)
            if kind_ == "exit":
                c.prove(f"exit status at {where} is an error", tm.not_(tm.eq(S_.cells[("#exit", ())], ZERO)), pc)
        c.safety(ex, kinds=("null", "fdiv", "div"))


def kind(c, ex, name, o, want):
    c.fact(name, strip_templates(o.ty["n"]) == want, f"got {o.ty['n']}")


def member(c, ex, o, f):
    if not any(rel == (f,) for rel, _ in ex.leaves(o.ty)):
        raise Missing(f"member {f} of {o.ty['n']}")


