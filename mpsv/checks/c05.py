"""C05: only fluid particles move; ids, fluid types and densities are constant; types change only to Ghost."""
from .. import terms as tm
from ..exec import Inv, LV, recname, noref
from ..modular import Modular
from ..terms import ZERO, num, arg
from .. import spec

HARNESS = "h_mps"
ARITHMETIC = False
SOURCES = "all"
CASES = {"quick": 20000, "thorough": 100000}
CONST = ("id", "fluidType", "density")
MOVE = ("position", "velocity")


def views(ex, c, fn, this):
    """every particle set the function can reach: (root, base)"""
    out = []

    def visit(root, path, t, depth):
        n = recname(t)
        if n == "Particles":
            out.append((root, path))
        elif depth and n and c.prog.records.get(n):
            for fname, ft, _, _ in ex.fields(n) or []:
                visit(root, path + (fname,), ft, depth - 1)

    if this:
        visit("this", (), c.rec(this), 2)
    for p in fn["params"]:
        t = fn["types"][p["t"]]
        visit("p:" + (p["n"] or "_"), (), noref(t), 1)
    return out


def verify(c):
    def unit(fn):
        if fn.get("ctor") or fn.get("body") is None:
            return False
        cls = fn.get("cls") or ""
        if cls in ("Particles", "Particle", "Neighbor"):
            return False
        if cls == "MPS" and not fn.get("const"):
            return True
        return any(recname(fn["types"][p["t"]]) == "Particles" and fn["types"][p["t"]].get("c") == "ref" for p in fn["params"])

    def ispart(path):
        """(field, rest, base) when the cell belongs to an element of a particle set"""
        for i in range(len(path) - 2):
            if path[i] == "particles" and path[i + 1] == "[]":
                return path[i + 2], path[i + 3:], path[:i]
        return None

    flags = {}  # key of a function -> {"needs0", "makes0", "keeps0"}: statements about the acceleration of non-fluid particles

    def post(ex, st, keys, n, fns):
        """the caller's view of a call: every modified cell is arbitrary, subject to the contract"""
        new = {}
        fl = [flags.get(f["key"], {}) for f in fns]
        if any(f.get("needs0") for f in fl):
            for root, base in {(root, ispart(path)[2]) for (root, path) in keys if ispart(path)}:
                pv = spec.PView(ex, root, base)
                i = tm.fresh("i", "I")
                t = tm.subst(ex.getcell(st, root, base + ("particles", "[]", "type"), "I"), {arg(0): i})
                for a in range(3):
                    acc = tm.subst(ex.getcell(st, *pv.cell("acceleration", str(a)), "R"), {arg(0): i})
                    c.eq(f"requires of {fns[0]['q']}: acceleration[{a}] of every non-fluid particle is zero", acc, ZERO,
                         list(st.pc) + [tm.not_(tm.eq(t, num(spec.FLUID))), pv.inrange(i)])
        for (root, path), sort in keys.items():
            old = ex.getcell(st, root, path, sort)
            ar = path.count("[]")
            f = tm.app(f"call{n}:{root}." + ".".join(p for p in path if p != "[]"), tuple(arg(i) for i in range(ar)), sort)
            p = ispart(path)
            if p and p[0] in CONST:
                f = old
            elif p and p[0] in MOVE:
                ty = ex.getcell(st, root, p[2] + ("particles", "[]", "type"), "I")
                f = tm.ite(tm.eq(ty, num(spec.FLUID)), f, old)
            elif p and p[0] == "acceleration":
                ty = ex.getcell(st, root, p[2] + ("particles", "[]", "type"), "I")
                non = tm.not_(tm.eq(ty, num(spec.FLUID)))
                if all(x.get("all0") for x in fl):
                    f = ZERO
                elif all(x.get("makes0") for x in fl):
                    f = tm.ite(non, ZERO, f)
                elif all(x.get("keeps0") for x in fl):
                    acc = [ex.getcell(st, root, p[2] + ("particles", "[]", "acceleration", str(a)), "R") for a in range(3)]
                    f = tm.ite(tm.and_(non, *[tm.eq(x, ZERO) for x in acc]), ZERO, f)
            elif p and p[0] == "type":
                f = tm.ite(tm.app(f"call{n}:retired", (arg(0),), "B"), num(spec.GHOST), old)
            new[(root, path)] = f
        st.cells.update(new)

    def verify_unit(m, fn, handlers):
        q = fn["q"]
        mods = {}
        with c.section(q):
            ex = c.executor()
            this = fn.get("cls") or None
            vs = views(ex, c, fn, this)
            for root, base in vs:
                spec.wellformed(c, ex, spec.PView(ex, root, base), ids=(root == "this" and this == "MPS") or root != "this")
            ex.ext.update(handlers[0])
            ex.virtual.update(handlers[1])
            if not any(a is not None for a in (ex.virtual.get("SurfaceDetector::Interface::isFreeSurface"),)):
                ex.virtual["SurfaceDetector::Interface::isFreeSurface"] = lambda e_, n_, o_, a_, s_: tm.app("surface", (tm.fresh("call", "I"),), "B")

            def cands(e, s):
                out = []
                for root, base in vs:
                    pv = spec.PView(ex, root, base)
                    for f in MOVE:
                        for a in range(3):
                            key = pv.cell(f, str(a))

                            def g(get, ks, key=key, pv=pv, f=f, a=a):
                                v = tm.bv("@x")
                                cur = tm.subst(get(*key), {arg(0): v})
                                return tm.all_(v, None, None, tm.implies(tm.not_(pv.is_(v, spec.FLUID)), tm.eq(cur, pv.init(f, v, str(a)))))
                            out.append(Inv(f"non-fluid particles keep {f}[{a}]", [key], g))
                return out

            ex.invariants = cands
            _, st, _ = c.run(q, this, len(fn["params"]), ex=ex)
            w = c.written(ex, st)
            for (root, path), (i0, i1) in w.items():
                mods[(root, path)] = i1.sort
            for root, base in vs:
                pv = spec.PView(ex, root, base)
                i = tm.fresh("i", "I")
                hy = list(st.pc) + [pv.inrange(i)]
                for f in CONST:
                    if pv.cell(f) in w:
                        c.eq(f"{f} of every particle unchanged", pv.fin(st, f, i, sort="R" if f == "density" else "I"), pv.init(f, i, sort="R" if f == "density" else "I"), hy)
                if pv.cell("type") in w:
                    t1, t0 = pv.fin(st, "type", i, sort="I"), pv.type(i)
                    c.prove("type unchanged or retired as ghost", tm.or_(tm.eq(t1, t0), tm.eq(t1, num(spec.GHOST))), hy)
                fl = flags.setdefault(fn["key"], {})
                non = tm.not_(pv.is_(i, spec.FLUID))
                zero = [tm.eq(x, ZERO) for x in pv.vec("acceleration", i)]
                fin0 = [tm.eq(x, ZERO) for x in pv.vecf(st, "acceleration", i)]
                moved = [(pv.fin(st, f, i, str(a)), pv.init(f, i, str(a))) for f in MOVE for a in range(3) if pv.cell(f, str(a)) in w]
                pe = lambda g, h: c.prover.prove(g, h).ok
                fl["all0"] = pe(tm.and_(*fin0), hy)
                fl["makes0"] = fl["all0"] or pe(tm.and_(*fin0), hy + [non])
                fl["keeps0"] = fl["makes0"] or pe(tm.and_(*fin0), hy + [non] + zero)
                if moved and q != "MPS::stepForward" and not all(c.prover.prove_eq(x, y, hy + [non]).ok for x, y in moved):
                    if all(c.prover.prove_eq(x, y, hy + [non] + zero).ok for x, y in moved):
                        fl["needs0"] = True
                        hy = hy + zero
                        c.notes.append(f"{q} is verified under the precondition that non-fluid particles have zero acceleration, proved at its call sites")
                for f in MOVE:
                    for a in range(3):
                        if pv.cell(f, str(a)) in w:
                            c.eq(f"{f}[{a}] of every non-fluid particle unchanged", pv.fin(st, f, i, str(a)), pv.init(f, i, str(a)),
                                 hy + [tm.not_(pv.is_(i, spec.FLUID))])
                if (root, pv.base[:-1] + ("#size",)) in w:
                    c.fact("the number of particles does not change", False, "a particle set is resized")
                n = sum(1 for k in w if k[0] == root and k[1][:len(base)] == tuple(base))
                c.fact(f"frame inferred: {n} particle cells modified, all others unchanged", True)
            if not vs:
                c.fact("reaches no particle set", True)
        c.axioms.clear()
        return mods

    m = Modular(c, unit, verify_unit, post)
    m.unit(c.fn("MPS::stepForward"))
    c.assume_text("a pressure calculator or surface detector other than those in the sources is not considered")
