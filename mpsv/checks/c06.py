"""C06: prediction and correction moves."""
from .. import terms as tm
from ..terms import ZERO, ONE, num
from .. import spec

HARNESS = "h_mps"
CASES = {"quick": 20000, "thorough": 100000}
SOURCES = "all"


def phase(c, q, want, writes):
    """contract of a phase method: want(pv, ex, i) -> {field: [3 components]}"""
    with c.section(q):
        ex = c.executor()
        pv = spec.mps(c, ex)
        _, st, _ = c.run(q, "MPS", ex=ex)
        i = tm.fresh("i", "I")
        hy = [pv.inrange(i)]
        c.cover("precondition", hy)
        for f, comps in want(pv, ex, i).items():
            got = pv.vecf(st, f, i)
            for a in range(3):
                c.eq(f"{f}[{a}] of particle i", got[a], comps[a], hy)
        cells = [pv.cell(f, str(a)) for f in writes for a in range(3)]
        c.frame("frame", ex, st, lambda k: k in cells)
        c.safety(ex)
        c.fact("always returns", not ex.exits, str(ex.exits)[:300])


def verify(c):
    dt = lambda ex: spec.const(ex, "settings", "dt")

    def gravity(pv, ex, i):
        fl = pv.is_(i, spec.FLUID)
        a = pv.vec("acceleration", i)
        return {"acceleration": [tm.ite(fl, tm.add(a[k], spec.const(ex, "gravity", str(k))), ZERO) for k in range(3)]}

    def move(pv, ex, i):
        fl = pv.is_(i, spec.FLUID)
        a, v, x = (pv.vec(f, i) for f in ("acceleration", "velocity", "position"))
        d = dt(ex)
        v2 = [tm.add(v[k], tm.mul(a[k], d)) for k in range(3)]
        return {
            "velocity": [tm.ite(fl, v2[k], v[k]) for k in range(3)],
            "position": [tm.ite(fl, tm.add(x[k], tm.mul(v2[k], d)), x[k]) for k in range(3)],
            "acceleration": [ZERO] * 3,
        }

    def correct(pv, ex, i):
        fl = pv.is_(i, spec.FLUID)
        a, v, x = (pv.vec(f, i) for f in ("acceleration", "velocity", "position"))
        d = dt(ex)
        return {
            "velocity": [tm.ite(fl, tm.add(v[k], tm.mul(a[k], d)), v[k]) for k in range(3)],
            "position": [tm.ite(fl, tm.add(x[k], tm.mul(a[k], d, d)), x[k]) for k in range(3)],
            "acceleration": [ZERO] * 3,
        }

    phase(c, "MPS::calGravity", gravity, ["acceleration"])
    phase(c, "MPS::moveParticle", move, ["velocity", "position", "acceleration"])
    phase(c, "MPS::moveParticleUsingPressureGradient", correct, ["velocity", "position", "acceleration"])
