"""Vocabulary of the contracts: the particle arrays of an MPS object as functions of the particle index."""
from . import terms as tm
from .check import Missing
from .terms import num, ZERO, ONE, arg

GHOST, FLUID, WALL, DUMMY = 0, 1, 2, 3
IGNORED, FREESURFACE, SUBFREE, INNER, SPLASH = 0, 1, 2, 3, 4
PFIELDS = ["id", "type", "fluidType", "density", "position", "velocity", "acceleration", "pressure", "numberDensity",
           "minimumPressure", "boundaryCondition", "neighbors"]


def enum_values(prog, q):
    return None


class PView:
    """particles[i] fields in the initial state / in a state, for an object at (root, base path)"""

    def __init__(self, ex, root, base):
        self.ex, self.root, self.base = ex, root, tuple(base) + ("particles", "[]")
        self.N = ex.init_cell(root, tuple(base) + ("particles", "#size"), "I")

    def cell(self, field, *rel):
        return (self.root, self.base + (field,) + rel)

    def init(self, field, i, *rel, sort="R", k=None):
        c = self.ex.init_cell(self.root, self.base + (field,) + rel, sort)
        m = {arg(0): i}
        if k is not None:
            m[arg(1)] = k
        return tm.subst(c, m)

    def fin(self, st, field, i, *rel, sort="R", k=None):
        c = st.cells.get((self.root, self.base + (field,) + rel))
        if c is None:
            return self.init(field, i, *rel, sort=sort, k=k)
        m = {arg(0): i}
        if k is not None:
            m[arg(1)] = k
        return tm.subst(c, m)

    def type(self, i):
        return self.init("type", i, sort="I")

    def dens(self, i):
        return self.init("density", i)

    def vec(self, field, i):
        return [self.init(field, i, str(c)) for c in range(3)]

    def vecf(self, st, field, i):
        return [self.fin(st, field, i, str(c)) for c in range(3)]

    def nsize(self, i):
        return self.init("neighbors", i, "#size", sort="I")

    def nid(self, i, k):
        return self.init("neighbors", i, "[]", "id", sort="I", k=k)

    def ndist(self, i, k):
        return self.init("neighbors", i, "[]", "distance", sort="R", k=k)

    def inrange(self, i):
        return tm.and_(tm.le(ZERO, i), tm.lt(i, self.N))

    def is_(self, i, t):
        return tm.eq(self.type(i), num(t))


def weight(d, re):
    """the MPS kernel"""
    return tm.ite(tm.lt(d, re), tm.sub(tm.div(re, d), ONE), ZERO)


def mps(c, ex, neighbors=True, distinct=True, ids=True):
    """view of this->particles of an MPS object under the representation invariant; installs the axioms"""
    pv = PView(ex, "this", ("particles",))
    wellformed(c, ex, pv, neighbors, distinct, ids)
    return pv


def wellformed(c, ex, pv, neighbors=True, distinct=True, ids=True):
    if ids:
        ex.overrides[pv.cell("id")] = arg(0)
        c.assume_text("representation invariant: particle ids equal their index in the particle array (established by the loaders, see C18)")
    ax = c.axioms
    nm = lambda *p: ex.init_cell(pv.root, pv.base + p, "I").args[0]
    ax[nm("density")] = lambda i: tm.lt(ZERO, pv.dens(i))
    c.assume_text("particle densities are positive")
    ax[nm("type")] = lambda i: tm.and_(tm.le(ZERO, pv.type(i)), tm.le(pv.type(i), num(3)))
    if neighbors:
        ax[nm("neighbors", "[]", "id")] = lambda i, k: tm.implies(
            tm.and_(pv.inrange(i), tm.le(ZERO, k), tm.lt(k, pv.nsize(i))),
            tm.and_(pv.inrange(pv.nid(i, k)), tm.not_(tm.eq(pv.nid(i, k), i))))
        c.assume_text("neighbour lists hold indices of other existing particles (postcondition of the neighbour search, C03)")
        ax[nm("neighbors", "[]", "distance")] = lambda i, k: tm.implies(
            tm.and_(pv.inrange(i), tm.le(ZERO, k), tm.lt(k, pv.nsize(i))), tm.lt(ZERO, pv.ndist(i, k)))
        c.assume_text("distinct neighbours are at a positive distance (two particles at the very same point have no defined weight)")


def const(ex, *path, sort="R", root="this"):
    return ex.init_cell(root, path, sort)


def refvalues_ext(c, ex):
    """callers see RefValues(dim, l0, re) through its contract: n0 and lambda are functions of exactly these arguments (C02)"""
    def h(e_, node, lv, args, st):
        if not args:
            return
        if len(args) != 3:
            raise Missing("RefValues is constructed from other arguments")
        a = tuple(e_.rv(st, x) for x in args)
        e_.write_leaf(st, lv, ("n0",), "R", tm.app("refN0", a, "R"))
        e_.write_leaf(st, lv, ("lambda",), "R", tm.app("refLambda", a, "R"))

    ex.ext["RefValues::RefValues"] = h
    c.axioms["refN0"] = lambda *a: tm.lt(ZERO, tm.app("refN0", a, "R"))
    c.axioms["refLambda"] = lambda *a: tm.lt(ZERO, tm.app("refLambda", a, "R"))
    c.assume_text("RefValues(dim, l0, re) is used through its contract (n0 and lambda are functions of these arguments, both positive: C02)")


def after_ctor(ex, st, root, keep_sorts=("R", "I", "B", "O")):
    """an arbitrary later state of the object: scalar parameters as constructed, containers with arbitrary content"""
    from .exec import State
    S = State()
    S.pc = list(st.pc)
    for (r, p), t in st.cells.items():
        if r == root and "[]" not in p and not any(x.startswith("#") and x != "#ptr" for x in p) and t.sort in keep_sorts:
            S.cells[(r, p)] = t
        elif r != root and ex.rootno(r) > 0:
            S.cells[(r, p)] = t
    return S


def stable(c, ex, S, st, root="this"):
    """the parameters of the object are the same after the call: what was shown for it holds for every later call as well"""
    changed = []
    with c.replay_decides():
        for k, v in sorted(S.cells.items(), key=str):
            if k[0] == root and st.cells.get(k, v) is not v and "uninit" not in tm.show(v):
                changed.append(k)
                c.eq(f"parameter {'.'.join(k[1])} of the object is not changed by the call", st.cells[k], v, list(st.pc))
        c.fact(f"parameters of the object are kept ({len(changed)} written)", True)
