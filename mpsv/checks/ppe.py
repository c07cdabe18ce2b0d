"""the implicit pressure calculator, from construction to the returned pressures (used by C11, C12 and C25)"""
from .. import terms as tm
from ..check import Missing
from ..exec import LV, State, SV, recname, noref
from ..terms import ZERO, ONE, num, arg
from .. import spec

IMP = "PressureCalculator::Implicit"
GEN = "PressureCalculator::DirichletBoundaryConditionGenerator::Interface::generate"
DBC = "PressureCalculator::DirichletBoundaryCondition"


class Implicit:
    def __init__(self, c):
        self.c = c
        ex = self.ex = c.executor()
        spec.refvalues_ext(c, ex)
        k = lambda n, s="R": tm.const("a_" + n, s)
        self.dim, self.l0, self.reN, self.reL, self.dt, self.comp, self.gamma = k("dim", "I"), k("l0"), k("reN"), k("reL"), k("dt"), k("compressibility"), k("relaxation")
        self.gen = LV("p:generator", (), (), c.fn(IMP + "::" + "Implicit")["types"][c.fn(IMP + "::Implicit")["params"][7]["t"]] if len(c.fn(IMP + "::Implicit")["params"]) == 8 else None)
        if self.gen.ty is None:
            raise Missing("the constructor of Implicit has other parameters")
        self.gen.ty = noref(self.gen.ty)
        _, st, _ = c.run(IMP + "::Implicit", IMP, ex=ex, args=[self.dim, self.l0, self.reN, self.reL, self.dt, self.comp, self.gamma, self.gen])
        ex.obls.clear()
        self.S0 = spec.after_ctor(ex, st, "this")
        f = c.fn(IMP + "::calc")
        self.root = "p:" + (f["params"][0]["n"] or "_")
        pv = self.pv = spec.PView(ex, self.root, ())
        spec.wellformed(c, ex, pv)
        bccell = pv.cell("boundaryCondition")
        self.bc = lambda i: tm.app("generated_bc", (i,), "I")
        self.gens = 0

        def generate(e_, node, obj, args, s):
            a = args[0]
            if not (isinstance(a, LV) and a.root == self.root and not a.path):
                raise Missing("boundary conditions are generated for another particle set")
            self.gens += 1
            if self.gens > 1:
                raise Missing("boundary conditions are generated more than once")
            s.cells[bccell] = self.bc(arg(0))
            return LV("dbc", (), (), c.rec(DBC))

        ex.virtual[GEN] = generate
        _, self.st, self.ret = c.run(IMP + "::calc", IMP, ex=ex, st=self.S0.copy())
        self.n0N, self.n0L = tm.app("refN0", (self.dim, self.l0, self.reN), "R"), tm.app("refN0", (self.dim, self.l0, self.reL), "R")
        self.lam = tm.app("refLambda", (self.dim, self.l0, self.reL), "R")
        self.pre = [tm.lt(ZERO, self.reL), tm.lt(ZERO, self.reN), tm.lt(ZERO, self.dt), tm.lt(ZERO, self.l0), tm.lt(ZERO, self.dim)]
        c.assume_text("boundary conditions come from the generator through its contract (C10): they are consistent with the particles' boundaryCondition field")
        if len(getattr(ex, "solves", [])) != 1:
            raise Missing("not exactly one linear system is solved per pressure calculation")
        self.solve = ex.solves[0]

    def has(self, i):
        S = State()
        return self.ex.rv(S, self.ex.call_fn(self.c.fn(DBC + "::contains"), LV("dbc", (), (), self.c.rec(DBC)), [i], S))

    def val(self, i):
        S = State()
        n = len(self.ex.obls)
        v = self.ex.rv(S, self.ex.call_fn(self.c.fn(DBC + "::value"), LV("dbc", (), (), self.c.rec(DBC)), [i], S))
        del self.ex.obls[n:]
        return v


def applied(t, i, d=0):
    """the bilinear form  sum over the entries (row, col, value) of Y(row) * value * X(col), independent of entry order"""
    if t.op == "cat":
        groups = {}
        rest = []
        for x in t.args:
            if x.op == "sfor":
                groups.setdefault((x.args[1], x.args[2]), []).append(x)
            else:
                rest.append(applied(x, i, d))
        for (lo, hi), xs in groups.items():
            v = tm.bv(f"@s{d}")
            body = tm.cat(*[tm.subst(x.args[3], {x.args[0][0]: v}) for x in xs])
            rest.append(tm.sum_(v, lo, hi, applied(body, i, d + 1)))
        return tm.add(*rest) if rest else ZERO
    if t.op == "site":
        return tm.ite(t.args[0], applied(t.args[1], i, d), applied(t.args[2], i, d))
    if t.op == "sfor":
        v = tm.bv(f"@s{d}")
        return tm.sum_(v, t.args[1], t.args[2], applied(tm.subst(t.args[3], {t.args[0][0]: v}), i, d + 1))
    if t.op == "item" and t.args[0] == "el" and len(t.args) == 4:
        r, cc, v = t.args[1:]
        return tm.mul(tm.app("Y", (r,), "R"), v, tm.app("X", (cc,), "R"))
    raise Missing("matrix entries are not an enumerated list: " + tm.show(t)[:200])


def assembled(c, m):
    """the system handed to the solver is the contract's (C11); returns the contract's coefficient and a test row"""
    ex, pv, pre = m.ex, m.pv, m.pre
    rows, cols, trip = m.solve["A"]
    b, n = m.solve["b"], m.solve["n"]
    c.eq("one row per particle", rows, pv.N)
    c.eq("one column per particle", cols, pv.N)
    c.eq("one right-hand side per particle", n, pv.N)
    i, v, w = tm.fresh("i", "I"), tm.bv("@i"), tm.bv("@k")
    hy = pre + [pv.inrange(i)]
    Y, X = (lambda q: tm.app("Y", (q,), "R")), (lambda q: tm.app("X", (q,), "R"))

    def coef(i, k):
        a = tm.div(tm.mul(num(2), m.dim), tm.mul(m.n0L, m.lam))
        part = tm.and_(tm.not_(tm.eq(m.bc(pv.nid(i, k)), num(spec.IGNORED))), tm.lt(pv.ndist(i, k), m.reL))
        return part, tm.div(tm.mul(a, spec.weight(pv.ndist(i, k), m.reL)), pv.dens(i))

    def row(i):
        part, cf = coef(i, w)
        off = tm.sum_(w, ZERO, pv.nsize(i), tm.ite(part, tm.mul(Y(i), tm.neg(cf), X(pv.nid(i, w))), ZERO))
        dia = tm.add(tm.sum_(w, ZERO, pv.nsize(i), tm.ite(part, cf, ZERO)), tm.div(m.comp, tm.powi(m.dt, 2)))
        return tm.ite(m.has(i), tm.mul(Y(i), X(i)), tm.add(off, tm.mul(Y(i), dia, X(i))))

    c.eq("the matrix is the contract's, as a bilinear form over arbitrary test vectors", applied(trip, i), tm.sum_(v, ZERO, pv.N, row(v)), pre)
    rhs = tm.subst(b, {arg(0): i})
    c.eq("right-hand side of prescribed pressure", rhs, m.val(i), hy + [m.has(i)])
    c.eq("right-hand side of every other particle", rhs,
         tm.mul(tm.div(m.gamma, tm.powi(m.dt, 2)), tm.div(tm.sub(pv.init("numberDensity", i), m.n0N), m.n0N)), hy + [tm.not_(m.has(i))])
    return coef, i, w, hy


def precision(c, m):
    """the solver's own tolerance is not loosened: with it, a reported success is the solution of the system"""
    with c.replay_decides():
        for k, (pc, tol) in enumerate(getattr(m.ex, "tolerances", [])):
            c.prove(f"the tolerance asked of the solver (call {k + 1}) is at most 1e-12", tm.le(tol, tm.div(ONE, num(10 ** 12))), pc + m.pre)
