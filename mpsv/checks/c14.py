"""C14: order of the phases of one time step, freshness of the neighbour lists, Courant number.

The phases that have a contract of their own (C03, C07, C08, C09, C12, C13) enter through it: each is a transformer that
writes the fields its contract lists as an (uninterpreted) function of the complete current content of the fields the
contract reads.  Two steps agree on all inputs exactly when every phase sees the same data, so the obligations compare
the state the real stepForward leaves behind with the specified composition.  Gravity, the two moves and the Courant
number are executed for real."""
from .. import terms as tm
from ..check import Missing
from ..exec import LV, State, Inv, recname
from ..terms import ZERO, ONE, num, arg
from .. import spec

HARNESS = "h_mps"
SOURCES = "all"
CASES = {"quick": 15000, "thorough": 60000}

V3 = [("0",), ("1",), ("2",)]
NB = [(("neighbors", "#size"), "I"), (("neighbors", "[]", "id"), "I"), (("neighbors", "[]", "distance"), "R")]


class Step:
    """abstract particle state: field cell -> lambda over the particle index (and neighbour index)"""

    def __init__(self, ex, pv, dom):
        self.ex, self.pv, self.dom = ex, pv, dom

    def norm(self, cell, i=arg(0)):
        """the cell at an index inside the particle array"""
        return tm.subst(cell, {tm.le(ZERO, i): tm.TRUE, tm.lt(i, self.pv.N): tm.TRUE, tm.lt(i, ZERO): tm.FALSE, tm.le(self.pv.N, i): tm.FALSE})

    def tok(self, cell):
        cell = self.norm(cell)
        vs = []
        m = {}
        for k in sorted({v.args[0] for v in cell.fv if v.args[0].startswith("#")}):
            b = tm.bv("@t" + k[1:])
            vs.append(b)
            m[arg(int(k[1:]))] = b
        return tm.lam(vs, tm.subst(cell, m)) if vs else cell

    def toks(self, get, *fields):
        out = []
        for f in fields:
            if f in ("position", "velocity", "acceleration"):
                out += [self.tok(get((f,) + c, "R")) for c in V3]
            elif f == "neighbors":
                out += [self.tok(get(p, s)) for p, s in NB]
            else:
                out.append(self.tok(get((f,), "I" if f in ("type", "boundaryCondition") else "R")))
        return tuple(out)

    # transformers: get(path, sort) -> cell, put(path, cell)
    def search(self, get, put):
        t = get(("type",), "I")
        x = [get(("position",) + c, "R") for c in V3]
        put(("type",), "I", tm.ite(tm.app("inDomain", tuple(x) + tuple(self.dom), "B"), t, num(spec.GHOST)))
        tk = self.toks(get, "type", "position")
        for q, (p, s) in enumerate(NB):
            a = (arg(0),) if p[-1] == "#size" else (arg(0), arg(1))
            put(p, s, tm.app(f"found{q}", a + tk, s))

    def viscosity(self, get, put, re):
        tk = self.toks(get, "type", "velocity", "neighbors") + (re,)
        fl = tm.eq(get(("type",), "I"), num(spec.FLUID))
        old = [get(("acceleration",) + c, "R") for c in V3]
        for a, c in enumerate(V3):
            put(("acceleration",) + c, "R", tm.add(old[a], tm.ite(fl, tm.app(f"viscous{a}", (arg(0),) + tk, "R"), ZERO)))

    def collision(self, get, put):
        tk = self.toks(get, "type", "velocity", "position", "density", "neighbors")
        for f in ("velocity", "position"):
            for a, c in enumerate(V3):
                put((f,) + c, "R", tm.app(f"collided.{f}{a}", (arg(0),) + tk, "R"))

    def density(self, get, put, re):
        tk = self.toks(get, "type", "neighbors") + (re,)
        put(("numberDensity",), "R", tm.app("density", (arg(0),) + tk, "R"))

    def pressure(self, get, put):
        """the content of the returned vector; boundary conditions may be rewritten"""
        tk = self.toks(get, "type", "density", "numberDensity", "position", "neighbors")
        put(("boundaryCondition",), "I", tm.app("conditions", (arg(0),) + tk, "I"))
        return tm.app("calculated", (arg(0),) + tk, "R")

    def minimum(self, get, put, re):
        tk = self.toks(get, "type", "pressure", "neighbors") + (re,)
        put(("minimumPressure",), "R", tm.app("minimum", (arg(0),) + tk, "R"))

    def gradient(self, get, put, re):
        tk = self.toks(get, "type", "pressure", "minimumPressure", "position", "density", "neighbors") + (re,)
        fl = tm.eq(get(("type",), "I"), num(spec.FLUID))
        old = [get(("acceleration",) + c, "R") for c in V3]
        for a, c in enumerate(V3):
            put(("acceleration",) + c, "R", tm.sub(old[a], tm.ite(fl, tm.app(f"gradient{a}", (arg(0),) + tk, "R"), ZERO)))


PHASES = {"MPS::calViscosity": ("viscosity", 1), "MPS::collision": ("collision", 0), "MPS::calNumberDensity": ("density", 1),
          "MPS::setMinimumPressure": ("minimum", 1), "MPS::calPressureGradient": ("gradient", 1)}
CALC = "PressureCalculator::Interface::calc"


def verify(c):
    with c.section("MPS::stepForward"):
        ex = c.executor()
        pv = spec.PView(ex, "this", ("particles",))
        ex.overrides[pv.cell("id")] = arg(0)
        c.assume_text("representation invariant: particle ids equal their index in the particle array (C18)")
        c.assume_text("ghosts' neighbour lists are never read (guards of C07, C08, C09, C13), so the search contract may leave them unspecified")
        S = lambda *p, sort="R": spec.const(ex, "settings", *p, sort=sort)
        dom = []
        step = Step(ex, pv, dom)
        log = []

        def acc(st):
            return (lambda p, s: ex.getcell(st, "this", pv.base + p, s)), (lambda p, s, v: st.cells.__setitem__(("this", pv.base + p), v))

        def phase(q, name, np):
            def h(e_, node, obj, args, st):
                if not (isinstance(obj, LV) and obj.root == "this" and not obj.path):
                    raise Missing(f"{q} is called on another object")
                if len(args) != np:
                    raise Missing(f"{q} has other parameters")
                log.append(q)
                g, p = acc(st)
                getattr(step, name)(g, p, *[e_.rv(st, x) for x in args])
            return h

        for q, (name, np) in PHASES.items():
            c.fn(q, np)
            ex.ext[q] = phase(q, name, np)

        def search(e_, node, obj, args, st):
            if len(args) != 1 or not (isinstance(args[0], LV) and (args[0].root, args[0].path) == ("this", ("particles",))):
                raise Missing("the neighbour search is called for another particle set")
            if (obj.root, obj.path) != ("this", ("neighborSearcher",)):
                raise Missing("the neighbour search uses another searcher")
            log.append("search")
            step.search(*acc(st))

        c.fn("NeighborSearcher::setNeighbors", 1)
        ex.ext["NeighborSearcher::setNeighbors"] = search
        results = []

        def calc(e_, node, obj, args, st):
            a = args[0]
            if not (isinstance(a, LV) and (a.root, a.path) == ("this", ("particles",))):
                raise Missing("pressures are calculated for another particle set")
            log.append("pressure")
            r = step.pressure(*acc(st))
            results.append(r)
            lv = LV(e_.newroot("tmp@pressures"), (), (), VEC)
            st.cells[(lv.root, ("#size",))] = pv.N
            st.cells[(lv.root, ("[]",))] = r
            return lv

        rt = c.fn("PressureCalculator::Explicit::calc")
        VEC = rt["types"][rt["ret"]]
        ex.virtual[CALC] = calc
        ex.ext["PressureCalculator::Explicit::calc"] = calc
        COUR = ("this", ("courant",))
        speeds = lambda g_: tm.app("courantNumber", step.toks(g_, "type", "velocity") + (S("dt"), S("particleDistance")), "R")

        def courantPhase(e_, node, obj, args, st):
            if not (isinstance(obj, LV) and obj.root == "this" and not obj.path) or args:
                raise Missing("calCourant is called on another object")
            log.append("courant")
            st.cells[COUR] = speeds(acc(st)[0])

        rc = c.fn("MPS::calCourant", 0)
        if rc["types"][rc["ret"]]["c"] != "void":
            raise Missing("calCourant returns a value")
        ex.ext["MPS::calCourant"] = courantPhase
        _, st, _ = c.run("MPS::stepForward", "MPS", ex=ex)
        for q in PHASES:
            if q not in log:
                raise Missing(f"stepForward does not call {q}: the composition of contracts does not apply")
        c.notes.append("phases seen: " + ", ".join(log))

        # the specified composition
        cur = {}

        def get(p, s):
            if p not in cur:
                cur[p] = ex.init_cell("this", pv.base + p, s)
            return cur[p]

        def put(p, s, v):
            cur[p] = v

        g = [spec.const(ex, "gravity", str(a)) for a in range(3)]
        dt = S("dt")
        fl = lambda: tm.eq(get(("type",), "I"), num(spec.FLUID))

        def move(pos):
            for a, q in enumerate(V3):
                A, v, x = (get((f,) + q, "R") for f in ("acceleration", "velocity", "position"))
                v1 = tm.add(v, tm.mul(A, dt))
                put(("velocity",) + q, "R", tm.ite(fl(), v1, v))
                put(("position",) + q, "R", tm.ite(fl(), tm.add(x, tm.mul(v1, dt) if pos else tm.mul(A, dt, dt)), x))
                put(("acceleration",) + q, "R", ZERO)

        step.search(get, put)
        for a, q in enumerate(V3):
            put(("acceleration",) + q, "R", tm.ite(fl(), tm.add(get(("acceleration",) + q, "R"), g[a]), ZERO))
        step.viscosity(get, put, S("re_forLaplacian"))
        move(True)
        step.search(get, put)
        step.collision(get, put)
        step.search(get, put)
        step.density(get, put, S("re_forNumberDensity"))
        r1 = step.pressure(get, put)
        put(("pressure",), "R", r1)
        step.minimum(get, put, S("re_forGradient"))
        step.gradient(get, put, S("re_forGradient"))
        move(False)
        final_bc = get(("boundaryCondition",), "I")
        r2 = step.pressure(get, put)  # the second update of the explicit method
        hy0 = list(st.pc)
        i, k = tm.fresh("i", "I"), tm.fresh("k", "I")
        inst = lambda t: tm.subst(step.norm(t), {arg(0): i, arg(1): k})
        got = lambda p, s: inst(ex.getcell(st, "this", pv.base + p, s))
        want = lambda p, s: inst(get(p, s))
        hy = hy0 + [pv.inrange(i)]
        c.cover("precondition", hy)
        w = "src/mps.cpp: MPS::stepForward"
        c.eq("types as after the third neighbour search", got(("type",), "I"), want(("type",), "I"), hy, w)
        for f in ("position", "velocity", "acceleration"):
            for q in V3:
                c.eq(f"{f}[{q[0]}] is that of the specified sequence of phases", got((f,) + q, "R"), want((f,) + q, "R"), hy, w)
        c.eq("number density is that of the lists after the collision phase", got(("numberDensity",), "R"), want(("numberDensity",), "R"), hy, w)
        c.eq("minimum pressure from the pressures calculated in this step", got(("minimumPressure",), "R"), want(("minimumPressure",), "R"), hy, w)
        for p, s in NB:
            c.eq(f"neighbour lists ({p[-1]}) are those built after the collision phase", got(p, s), want(p, s), hy, w)
        p = got(("pressure",), "R")
        c.prove("each particle has the pressure calculated for its own id (explicit: second update)",
                tm.or_(tm.eq(p, inst(r1)), tm.eq(p, inst(r2))), hy, w)
        if "courant" in log:
            c.eq("Courant number of the final velocities, calculated in every step", step.norm(ex.getcell(st, *COUR, "R")), speeds(get), hy0, w)
        else:
            c.undecided("Courant number of the final velocities", "stepForward does not call calCourant")
        c.safety(ex, kinds=("bounds",))
        allowed = ["acceleration", "velocity", "position", "type", "neighbors", "numberDensity", "pressure", "minimumPressure", "boundaryCondition"]
        cells = lambda q: (q[0] == "this" and q[1][:3] == pv.base and q[1][3] in allowed) or q == ("this", ("courant",))
        c.frame("frame", ex, st, cells, hy0)
    courant(c)


def courant(c):
    with c.section("MPS::calCourant"):
        ex = c.executor()
        rc = c.fn("MPS::calCourant", 0)
        if rc["types"][rc["ret"]]["c"] != "void":
            raise Missing("calCourant returns a value")
        pv = spec.PView(ex, "this", ("particles",))
        ex.overrides[pv.cell("id")] = arg(0)
        dt, l0 = spec.const(ex, "settings", "dt"), spec.const(ex, "settings", "particleDistance")
        pre = [tm.lt(ZERO, dt), tm.lt(ZERO, l0)]
        c.assume_text("time step and particle distance are positive")
        v = lambda i: pv.vec("velocity", i)
        speed = lambda i: tm.sqrt(tm.add(*[tm.powi(x, 2) for x in v(i)]))
        cou = lambda i: tm.div(tm.mul(speed(i), dt), l0)
        nm = v(ONE)[0].args[0]
        # attained.m(x): x is 0 or the value of the measure m at some fluid particle
        measures = {"Courant number": cou, "speed": speed, "squared speed": lambda i: tm.add(*[tm.powi(x, 2) for x in v(i)])}
        att = lambda m, x: tm.app("attained." + m, (x,), "B")
        c.axioms[nm] = lambda i: [tm.implies(tm.and_(pv.inrange(i), pv.is_(i, spec.FLUID)), att(m, f(i))) for m, f in measures.items()]
        y = tm.bv("@y")

        def cands(e, s):
            out = []
            for key, sort in s.W.items():
                if "[]" in key[1] or sort != "R":
                    continue
                out.append(Inv(f"{key}: not negative", [key], lambda get, ks, key=key: tm.le(ZERO, get(*key))))
                for m, f in measures.items():
                    out.append(Inv(f"{key}: zero or attained {m}", [key], lambda get, ks, key=key, m=m: att(m, get(*key))))
                    out.append(Inv(f"{key}: bounds the {m}", [key], lambda get, ks, key=key, f=f: tm.all_(
                        y, None, None, tm.implies(tm.and_(tm.le(ZERO, y), tm.lt(y, ks[-1]), pv.is_(y, spec.FLUID)), tm.le(f(y), get(*key)))) if len(ks) == 1 else None))
            return out

        ex.invariants = cands
        S0 = State()
        S0.pc = [att(m, ZERO) for m in measures] + pre
        _, st, _ = c.run("MPS::calCourant", "MPS", ex=ex, st=S0)
        c.notes.append("loop invariants found inductive: " + str(ex.invlog))
        i = tm.fresh("i", "I")
        C = ex.getcell(st, "this", ("courant",), "R")
        hy = list(st.pc)
        c.cover("precondition", hy + [pv.inrange(i)])
        c.prove("at least the Courant number of every fluid particle", tm.le(cou(i), C), hy + [pv.inrange(i), pv.is_(i, spec.FLUID)])
        c.prove("not negative", tm.le(ZERO, C), hy)
        # the Courant number is a function of a quantity that is known to be 0 or the measure of a fluid particle w
        w = tm.fresh("w", "I")
        known = [(h.args[0][len("attained."):], h.args[1]) for h in hy if h.op == "app" and str(h.args[0]).startswith("attained.") and h.args[1] is not ZERO]
        ways = []
        for m, A in known:
            at = lambda val: tm.subst(C, {A: val}) if A is not C else val
            ways.append([tm.implies(tm.eq(A, ZERO), tm.eq(at(ZERO), ZERO)),
                         tm.implies(tm.and_(pv.inrange(w), pv.is_(w, spec.FLUID), tm.eq(A, measures[m](w))), tm.eq(at(measures[m](w)), cou(w)))])
        ok = [gs for gs in ways if all(c.prover.prove(g, hy).ok for g in gs)]
        c.prove("zero or the Courant number of a fluid particle", tm.and_(*ok[0]) if ok else att("Courant number", C), hy)
        c.frame("frame", ex, st, lambda q: q == ("this", ("courant",)), pre)
        c.safety(ex, pre)
        c.fact("always returns", not ex.exits, str(ex.exits)[:300])
        c.axioms.clear()
