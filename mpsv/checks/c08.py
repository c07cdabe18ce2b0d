"""C08: collision handling."""
from .. import terms as tm
from ..check import Missing
from ..terms import ZERO, ONE, num, arg
from .. import spec

HARNESS = "h_mps"
SOURCES = "all"
CASES = {"quick": 20000, "thorough": 100000}


def impulse(xi, xj, vi, vj, invi, invj, depth, e):
    """the contract of one pair: new positions and velocities of both partners"""
    d = [tm.sub(b, a) for a, b in zip(xi, xj)]
    nrm = tm.sqrt(tm.add(*[tm.mul(x, x) for x in d]))
    n = [tm.div(x, nrm) for x in d]
    rel = tm.add(*[tm.mul(tm.sub(b, a), q) for a, b, q in zip(vi, vj, n)])
    mass = tm.inv(tm.add(invi, invj))
    imp = tm.ite(tm.lt(rel, ZERO), tm.neg(tm.mul(tm.add(ONE, e), rel, mass)), ZERO)
    pos = tm.mul(depth, mass)
    nxi = [tm.sub(a, tm.mul(pos, invi, q)) for a, q in zip(xi, n)]
    nxj = [tm.add(a, tm.mul(pos, invj, q)) for a, q in zip(xj, n)]
    nvi = [tm.sub(a, tm.mul(imp, invi, q)) for a, q in zip(vi, n)]
    nvj = [tm.add(a, tm.mul(imp, invj, q)) for a, q in zip(vj, n)]
    return nxi, nxj, nvi, nvj, n, rel


def verify(c):
    lemmas(c)
    body(c)


def lemmas(c):
    with c.section("lemmas about the pair contract"):
        V = lambda s: [tm.const(s + "xyz"[a]) for a in range(3)]
        xi, xj, vi, vj = V("xi"), V("xj"), V("vi"), V("vj")
        ri, rj, depth, e = tm.const("rho_i"), tm.const("rho_j"), tm.const("depth"), tm.const("e")
        d2 = tm.add(*[tm.mul(tm.sub(b, a), tm.sub(b, a)) for a, b in zip(xi, xj)])
        hy = [tm.lt(ZERO, ri), tm.lt(ZERO, rj), tm.lt(ZERO, d2)]
        dot = lambda p, q: tm.add(*[tm.mul(a, b) for a, b in zip(p, q)])
        minus = lambda p, q: [tm.sub(a, b) for a, b in zip(p, q)]
        for nm, invj in (("two fluid particles", tm.inv(rj)), ("fluid and non-fluid", ZERO)):
            nxi, nxj, nvi, nvj, n, rel = impulse(xi, xj, vi, vj, tm.inv(ri), invj, depth, e)
            nrel = dot(minus(nvj, nvi), n)
            c.eq(f"{nm}: approaching pairs separate with the coefficient of restitution", nrel, tm.neg(tm.mul(e, rel)), hy + [tm.lt(rel, ZERO)])
            for a in range(3):
                c.eq(f"{nm}: velocities of receding pairs are untouched [{a}]", nvi[a], vi[a], hy + [tm.not_(tm.lt(rel, ZERO))])
                c.eq(f"{nm}: velocities of receding pairs are untouched, partner [{a}]", nvj[a], vj[a], hy + [tm.not_(tm.lt(rel, ZERO))])
                c.eq(f"{nm}: the relative position grows by the depth along the line of centres [{a}]", tm.sub(nxj[a], nxi[a]),
                     tm.add(tm.sub(xj[a], xi[a]), tm.mul(depth, n[a])), hy)
            for a in range(3):
                if invj is ZERO:
                    c.eq(f"{nm}: the partner keeps its position [{a}]", nxj[a], xj[a], hy)
                    c.eq(f"{nm}: the partner keeps its velocity [{a}]", nvj[a], vj[a], hy)
                else:
                    c.eq(f"{nm}: momentum conserved [{a}]", tm.add(tm.mul(ri, nvi[a]), tm.mul(rj, nvj[a])), tm.add(tm.mul(ri, vi[a]), tm.mul(rj, vj[a])), hy)
                    c.eq(f"{nm}: centre of mass conserved [{a}]", tm.add(tm.mul(ri, nxi[a]), tm.mul(rj, nxj[a])), tm.add(tm.mul(ri, xi[a]), tm.mul(rj, xj[a])), hy)


def body(c):
    with c.section("MPS::collision"):
        ex = c.executor()
        pv = spec.mps(c, ex)
        D = spec.const(ex, "settings", "collisionDistance")
        e = spec.const(ex, "settings", "coefficientOfRestitution")
        ex.loop_log = []
        _, st, _ = c.run("MPS::collision", "MPS", ex=ex)
        cells = [pv.cell(f, str(a)) for f in ("position", "velocity") for a in range(3)]
        c.frame("frame", ex, st, lambda q: q in cells, list(st.pc))
        log = ex.loop_log
        outer = next((s for s in reversed(log) if s.level == 0 and any(k in s.W for k in cells)), None)
        inner = next((s for s in reversed(log) if s.level == 1 and any(k in s.W for k in cells)), None)
        if outer is None or inner is None or sum(1 for s in log if s.level == 0 and any(k in s.W for k in cells)) != 1:
            raise Missing("collision handling is not a nest of two loops over particles and neighbours")
        if any(s.level > 1 for s in log):
            raise Missing("deeper loop nest")
        oi = outer.msym(outer.ikey, "I")
        ik = inner.msym(inner.ikey, "I")
        # both loops run over their full ranges
        c.eq("outer loop starts at the first particle", outer.lo, ZERO)
        c.eq("outer loop ends after the last particle", outer.hi, pv.N)
        c.fact("outer loop has no early exit", outer.extra is tm.TRUE and outer.brk is None and outer.ret is None)
        c.eq("inner loop starts at the first neighbour", inner.lo, ZERO)
        c.eq("inner loop ends after the last neighbour", inner.hi, pv.nsize(oi), [pv.inrange(oi)])
        c.fact("inner loop has no early exit", inner.extra is tm.TRUE and inner.brk is None and inner.ret is None)
        # the loops do nothing else: one outer iteration is the inner loop for fluid particles and nothing otherwise
        fluid = pv.is_(oi, spec.FLUID)
        x = tm.fresh("x", "I")
        ohy = [pv.inrange(oi)]
        sub = lambda t, i: tm.subst(t, {arg(0): i})
        for k in cells:
            if k not in outer.W:
                continue
            nm = ".".join(k[1][-2:])
            m = sub(outer.msym(k, "R"), x)
            c.eq(f"non-fluid particles do not initiate collisions: {nm}", sub(outer.cont.cells[k], x), m, ohy + [tm.not_(fluid)])
            if k in inner.W:
                c.eq(f"the inner loop starts from the current state: {nm}", sub(inner.inits[k], x), m, ohy + [fluid])
                res = tm.subst(inner.sub(inner.msym(k, "R")), {inner.K: inner.hi})
                c.eq(f"one outer iteration is the inner loop: {nm}", sub(outer.cont.cells[k], x), sub(res, x), ohy + [fluid])
            else:
                c.eq(f"one outer iteration leaves {nm} alone", sub(outer.cont.cells[k], x), m, ohy + [fluid])
            fin = tm.subst(outer.sub(outer.msym(k, "R")), {outer.K: outer.hi})
            c.eq(f"the result is the outer loop's: {nm}", sub(st.cells[k], x), sub(fin, x), list(st.pc))
            c.eq(f"the outer loop starts from the state at entry: {nm}", sub(outer.inits[k], x), pv.init(k[1][-2], x, k[1][-1]))
        # one inner iteration is the pair contract
        j = pv.nid(oi, ik)
        head = lambda f, i: [sub(inner.head.cells.get(pv.cell(f, str(a)), pv.init(f, arg(0), str(a))), i) for a in range(3)]
        cont = lambda f, i: [sub(inner.cont.cells.get(pv.cell(f, str(a)), pv.init(f, arg(0), str(a))), i) for a in range(3)]
        xi, xj, vi, vj = head("position", oi), head("position", j), head("velocity", oi), head("velocity", j)
        d2 = tm.add(*[tm.mul(tm.sub(b, a), tm.sub(b, a)) for a, b in zip(xi, xj)])
        jf = pv.is_(j, spec.FLUID)
        invj = tm.ite(jf, tm.inv(pv.dens(j)), ZERO)
        depth = tm.sub(D, pv.ndist(oi, ik))
        nxi, nxj, nvi, nvj, _, _ = impulse(xi, xj, vi, vj, tm.inv(pv.dens(oi)), invj, depth, e)
        close = tm.lt(pv.ndist(oi, ik), D)
        hy = [pv.inrange(oi), tm.le(ZERO, ik), tm.lt(ik, pv.nsize(oi)), fluid, tm.lt(ZERO, d2), tm.lt(ZERO, pv.dens(oi)), tm.lt(ZERO, pv.dens(j)),
              pv.inrange(j), tm.not_(tm.eq(j, oi))]
        c.cover("precondition", hy)
        c.assume_text("colliding particles are at distinct positions (the line of centres is undefined otherwise)")

        def attempt(side):
            handled = tm.and_(close, tm.or_(tm.not_(jf), side))
            obl = []
            for f, ni, nj in (("position", nxi, nxj), ("velocity", nvi, nvj)):
                old, new = head(f, x), cont(f, x)
                oldi, newi = head(f, oi), cont(f, oi)
                oldj, newj = head(f, j), cont(f, j)
                for a in range(3):
                    obl.append((f"{f}[{a}] of the particle itself, colliding", newi[a], ni[a], hy + [handled]))
                    obl.append((f"{f}[{a}] of a fluid partner, colliding", newj[a], nj[a], hy + [handled, jf]))
                    obl.append((f"{f}[{a}] of a non-fluid partner, colliding", newj[a], oldj[a], hy + [handled, tm.not_(jf)]))
                    obl.append((f"{f}[{a}] of every other particle", new[a], old[a], hy + [tm.not_(tm.eq(x, oi)), tm.not_(tm.eq(x, j))]))
                    obl.append((f"{f}[{a}] when not colliding or handled from the other side", new[a], old[a], hy + [tm.not_(handled)]))
            return obl

        sides = [("from the larger index", tm.lt(j, oi)), ("from the smaller index", tm.lt(oi, j))]
        pick = sides[0]
        for s in sides:
            probe = attempt(s[1])
            if all(c.prover.prove_eq(g, w, h).ok for _, g, w, h in (probe[0], probe[4])):
                pick = s
                break
        c.notes.append(f"each fluid-fluid pair is handled {pick[0]}; exactly one of its two list entries satisfies that (ids are distinct, lists are symmetric, C03)")
        for n, g, w, h in attempt(pick[1]):
            c.eq(n, g, w, h)
        c.safety(ex)
        c.fact("always returns", not ex.exits, str(ex.exits)[:300])
