"""The neighbour search under contract (C03, C04): grid construction, cell lists, scan.

Ghost vocabulary: cellof(i) is the index under which storeParticles files particle i (the code's own index expression),
grid_a(i) the integer cell coordinates occurring in it.  The contract of storeParticles describes, for every cell, the
list first/next as the increasing enumeration of the active particles filed in that cell; setNeighbors is verified
against that contract only."""
from .. import terms as tm
from ..check import Missing
from ..exec import LV, State, Inv, Unsupported
from ..terms import ZERO, ONE, num, arg, TRUE, FALSE
from .. import spec

NS = "NeighborSearcher"
MONE = num(-1)


class Search:
    def __init__(self, c):
        self.c = c
        self.re = tm.const("re")
        self.n = tm.const("n", "I")
        self.dom = {a + b: tm.const(f"dom.{a}{b}") for a in "xyz" for b in ("Min", "Max", "Length")}
        d = self.dom
        # what the caller of the constructor guarantees (C20): lengths are max - min, radius positive
        self.pre = [tm.lt(ZERO, self.re), tm.le(ZERO, self.n)] + [tm.eq(d[a + "Length"], tm.sub(d[a + "Max"], d[a + "Min"])) for a in "xyz"]
        self.pre += [tm.le(d[a + "Min"], d[a + "Max"]) for a in "xyz"]
        self.grids = {}   # canonical coordinate expression (over the bound variable @p) -> symbol
        self.alias = {}   # other spellings: canonical expression -> (symbol, offset)
        self.cellpoly = None
        self.facts = []

    # ------------------------------------------------------------ construction
    def construct(self):
        c = self.c
        ex = c.executor()
        f = c.fn(NS + "::" + NS, 3)
        _, st, _ = c.run(NS + "::" + NS, NS, 3, ex=ex, args=[self.re, LV("dom", (), (), c.rec("Domain")), self.n])
        c.safety(ex, self.pre)
        S = spec.after_ctor(ex, st, "this")
        sizes = {k: v for k, v in st.cells.items() if k[0] == "this" and k[1][-1] == "#size" and "[]" not in k[1]}
        # name the grid dimensions: an integer member k + trunc(e) becomes a symbol, and trunc(e) is replaced by symbol - k
        dims = {}
        for k, t in sorted(S.cells.items(), key=str):
            if k[0] != "this" or t.sort != "I":
                continue
            tr = [x for x in tm.subterms(t) if x.op == "trunc"]
            if len(tr) == 1 and tm.isnum(tm.sub(t, tr[0])) and tr[0] not in dims:
                s = tm.const("this." + ".".join(k[1]), "I")
                dims[tr[0]] = tm.sub(s, tm.sub(t, tr[0]))
                self.facts.append(tm.eq(s, t))
        rep = lambda t: tm.subst(t, dims)
        for k, t in list(S.cells.items()):
            if k[0] == "this":
                S.cells[k] = rep(t)
        for k, t in sizes.items():
            S.cells[k] = rep(t)
        self.dims = dims
        S.pc = list(self.pre)
        self.S0 = S
        for k in list(S.cells):
            if k[0] != "this":
                del S.cells[k]

    def setup(self, ex, root):
        pv = spec.PView(ex, root, ())
        ex.overrides[pv.cell("id")] = arg(0)
        self.c.assume_text("representation invariant: particle ids equal their index in the particle array (C18)")
        self.c.assume_text("the searcher was constructed for this number of particles (MPS::MPS, C21) with domain lengths max - min (C20), and the grid size fits int")
        ex.overrides[(root, ("particles", "#size"))] = self.n
        pv.N = self.n
        ex.nanable = frozenset(pv.init("position", ONE, str(a)).args[0] for a in range(3))
        ex.index_hook = lambda st, cont, i: self.fold(st, pv, i)
        self.c.axioms[pv.init("type", ONE, sort="I").args[0]] = lambda i: tm.and_(tm.le(ZERO, pv.type(i)), tm.le(pv.type(i), num(3)))
        return pv

    def inside(self, pv, i):
        d = self.dom
        x = pv.vec("position", i)
        nn = [tm.not_(tm.app("isnan:" + x[a].args[0], (i,), "B")) for a in range(3)]
        return tm.and_(*nn, *[tm.le(d[n + "Min"], x[a]) for a, n in enumerate("xyz")], *[tm.le(x[a], d[n + "Max"]) for a, n in enumerate("xyz")])

    def newtype(self, pv, i):
        return tm.ite(self.inside(pv, i), pv.type(i), num(spec.GHOST))

    # ------------------------------------------------------------ cell coordinates
    def grid(self, st, k, e):
        """symbol for the cell coordinate e = trunc(..position[k]..)"""
        b = tm.bv("@p")
        key = tm.subst(e, {k: b})
        off = ZERO
        if key not in self.grids and key not in self.alias:
            # another spelling of a known coordinate (for instance trunc(x + 1) for trunc(x) + 1)?
            if len(self.grids) >= 3:
                vs = lambda t: {y.args[0] for y in tm.subterms(t) if y.op == "app"}
                for o, n in self.grids.items():
                    if vs(o) != vs(key):
                        continue
                    for q in (0, 1, -1, 2, -2):
                        if self.c.prover.prove(tm.eq(e, tm.add(tm.subst(o, {b: k}), num(q))), list(st.pc) + self.pre).ok:
                            self.alias[key] = (n, num(q))
                            break
            if key not in self.alias:
                self.grids[key] = f"grid{len(self.grids)}"
        if key in self.alias:
            n, off = self.alias[key]
            return tm.add(tm.app(n, (k,), "I"), off)
        return tm.app(self.grids[key], (k,), "I")

    def fold(self, st, pv, i):
        """replace the coordinate expressions of a cell index by symbols, and the whole by cellof + offset"""
        pos = {pv.init("position", ONE, str(a)).args[0] for a in range(3)}
        # the position-dependent atoms of the index polynomial
        atoms = {a for m, _ in tm._poly_items(i) for a, _ in m}
        trs = [x for x in atoms if x.sort == "I" and x.op != "app" and any(y.op == "app" and y.args[0] in pos for y in tm.subterms(x))]
        if not trs:
            return tm.subst(i, self.dims)
        parts = {y.args[1] for x in trs for y in tm.subterms(x) if y.op == "app" and y.args[0] in pos}
        if len(parts) != 1:
            return tm.subst(i, self.dims)
        k = parts.pop()
        g = tm.subst(i, {x: self.grid(st, k, x) for x in sorted(trs, key=lambda t: t.id)})
        g = tm.subst(g, self.dims)
        b = tm.bv("@p")
        poly = tm.subst(g, {k: b})
        if self.cellpoly is None:
            self.cellpoly = poly
        off = tm.sub(poly, self.cellpoly)
        if tm.contains(off, lambda x: x is b or (x.op == "app" and x.args[0].startswith("grid"))):
            return g
        return tm.add(tm.app("cellof", (k,), "I"), off)

    def cell(self, k):
        return tm.app("cellof", (k,), "I")

    def cellexpr(self, k):
        return tm.subst(self.cellpoly, {tm.bv("@p"): k})

    def gridexprs(self, k):
        return [(tm.app(n, (k,), "I"), tm.subst(e, {tm.bv("@p"): k})) for e, n in self.grids.items()]

    def geometry(self, pv):
        """lemmas about cell indices, proved from the code's expressions"""
        c = self.c
        with c.section("cell geometry"):
            if self.cellpoly is None or len(self.grids) != 3:
                raise Missing("the cell index is not made of three coordinates")
            i, j = tm.const("i", "I"), tm.const("j", "I")
            num_ = self.numcells
            ge = self.gridexprs(i)
            # which dimension limits which coordinate: the offset coefficient structure is left to the solver
            hy = self.pre + self.facts
            inb = [self.inside(pv, i)]
            dimsym = {}
            for t, s in self.dims.items():
                for a in "xyz":
                    if tm.contains(t, lambda x: x is self.dom[a + "Length"] or x is self.dom[a + "Max"]):
                        dimsym[a] = s
            pos = {pv.init("position", ONE, str(a)).args[0]: "xyz"[a] for a in range(3)}
            self.range_facts = []
            for g, e in ge:
                ax = {pos[y.args[0]] for y in tm.subterms(e) if y.op == "app" and y.args[0] in pos}
                if len(ax) != 1 or list(ax)[0] not in dimsym:
                    raise Missing("a cell coordinate does not belong to one axis")
                top = dimsym[list(ax)[0]]  # trunc(length/re)
                c.prove(f"{list(ax)[0]} cell coordinate of a particle inside the domain is within the grid", tm.and_(tm.le(ZERO, e), tm.le(e, top)), hy + inb + [tm.eq(tm.trunc(tm.div(self.dom[list(ax)[0] + "Length"], self.re)), top)])
                self.range_facts.append((g.args[0], list(ax)[0], top))
                c.prove(f"grid has a positive number of cells along {list(ax)[0]}", tm.le(ZERO, top), hy + [tm.eq(tm.trunc(tm.div(self.dom[list(ax)[0] + "Length"], self.re)), top)])
            self.range_facts.sort(key=lambda x: x[1])
            # 0 <= X + Y*nx + Z*nx*ny < nx*ny*nz for coordinates in range, with the code's own polynomial
            gi = {a: tm.app(n, (i,), "I") for n, a, t in self.range_facts}
            top = {a: t for n, a, t in self.range_facts}
            rng = [tm.and_(tm.le(ZERO, gi[a]), tm.le(gi[a], top[a])) for a in "xyz"] + [tm.le(ZERO, top[a]) for a in "xyz"]
            prods = []

            def nn(*fs):
                t = tm.mul(*fs)
                prods.append(tm.le(ZERO, t))
            for a in "xyz":
                for b in "xyz":
                    if a < b:
                        for p in (gi[a], tm.sub(top[a], gi[a]), top[a]):
                            for q in (gi[b], tm.sub(top[b], gi[b]), top[b]):
                                nn(p, q)
            for p in (gi["x"], tm.sub(top["x"], gi["x"]), top["x"]):
                for q in (gi["y"], tm.sub(top["y"], gi["y"]), top["y"]):
                    for r in (gi["z"], tm.sub(top["z"], gi["z"]), top["z"]):
                        nn(p, q, r)
            u = [tm.const(f"u{q}", "I") for q in range(3)]
            c.prove("lemma: products of non-negative numbers are not negative", tm.and_(tm.le(ZERO, tm.mul(u[0], u[1])), tm.le(ZERO, tm.mul(u[0], u[1], u[2]))),
                    [tm.le(ZERO, x) for x in u] + [tm.le(ZERO, tm.mul(u[0], u[1]))])
            c.prove("lemma: product of two", tm.le(ZERO, tm.mul(u[0], u[1])), [tm.le(ZERO, x) for x in u[:2]])
            ce = self.cellexpr(i)
            # treat every monomial as a number of its own: linear consequence
            self.lin(f"cell index of a particle inside the domain is in the grid", tm.and_(tm.le(ZERO, ce), tm.lt(ce, num_)), rng + prods)
            self.rng, self.prods, self.gi, self.top = rng, prods, gi, top

    def lin(self, name, goal, hyps):
        """linear consequence with every monomial abstracted to a variable"""
        cache = {}

        def mono(m):
            if m not in cache:
                cache[m] = tm.const(f"mono{len(cache)}", "I")
            return cache[m]

        def flat(t):
            out = []
            for m, k in tm._poly_items(t):
                out.append(tm.scale(ONE if not m else mono(m), k))
            return tm.add(*out)

        def go(f):
            if f.op in ("and", "or"):
                r = tm.and_ if f.op == "and" else tm.or_
                return r(*[go(x) for x in f.args])
            if f.op == "not":
                return tm.not_(go(f.args[0]))
            if f.op == "lt0":
                return tm.lt(flat(f.args[0]), ZERO)
            if f.op == "eq0":
                return tm.eq(flat(f.args[0]), ZERO)
            return f
        ok = self.c.prove(name, go(goal), [go(h) for h in hyps])
        if not ok:
            self.c.obls[-1]["definite"] = False  # the abstraction of products loses information: a counter-model is no refutation
        return ok

    def cell_axiom(self, pv):
        """instances of the geometry lemma for the solver"""
        self.c.axioms["cellof"] = lambda i: tm.implies(self.inside(pv, i), tm.and_(tm.le(ZERO, self.cell(i)), tm.lt(self.cell(i), self.numcells)))

    # ------------------------------------------------------------ storeParticles
    def lists(self, pv, first, last, nxt, typ, K):
        """the list invariant after the particles below K; first/last/nxt/typ: functions of an index"""
        act = lambda i: tm.not_(tm.eq(typ(i), num(spec.GHOST)))
        cell = self.cell
        b, i, j = tm.bv("@b"), tm.bv("@i"), tm.bv("@j")
        low = lambda i: tm.and_(tm.le(ZERO, i), tm.lt(i, K))
        inb = tm.and_(tm.le(ZERO, b), tm.lt(b, self.numcells))
        all_ = lambda vs, body: all_(vs[1:], tm.all_(vs[0], None, None, body)) if len(vs) > 1 else tm.all_(vs[0], None, None, body)
        im = tm.implies
        out = [("cells of filed particles are in the grid", all_([i], im(tm.and_(low(i), act(i)), tm.and_(tm.le(ZERO, cell(i)), tm.lt(cell(i), self.numcells)))))]
        if last is not None:
            out.append(("last: none or a filed particle of the cell", all_([b], im(inb, tm.or_(tm.eq(last(b), MONE), tm.and_(low(last(b)), act(last(b)), tm.eq(cell(last(b)), b)))))))
            out.append(("last: not below any particle of its cell", all_([i], im(tm.and_(low(i), act(i)), tm.le(i, last(cell(i)))))))
        out += [
            ("first: none or a filed particle of the cell", all_([b], im(inb, tm.or_(tm.eq(first(b), MONE), tm.and_(low(first(b)), act(first(b)), tm.eq(cell(first(b)), b)))))),
            ("first: not above any particle of its cell", all_([i], im(tm.and_(low(i), act(i)), tm.and_(tm.le(ZERO, first(cell(i))), tm.le(first(cell(i)), i))))),
            ("next: none or a later filed particle of the cell", all_([i], im(tm.and_(low(i), act(i)), tm.or_(tm.eq(nxt(i), MONE), tm.and_(tm.lt(i, nxt(i)), tm.lt(nxt(i), K), act(nxt(i)), tm.eq(cell(nxt(i)), cell(i))))))),
            ("next: skips no particle of the cell", all_([i, j], im(tm.and_(low(i), low(j), tm.lt(i, j), act(i), act(j), tm.eq(cell(i), cell(j))), tm.and_(tm.lt(i, nxt(i)), tm.le(nxt(i), j))))),
        ]
        if last is not None:
            out.append(("next: none for particles not yet filed", all_([i], im(tm.and_(tm.le(K, i), tm.lt(i, self.n)), tm.eq(nxt(i), MONE)))))
        return out

    def store(self, want):
        """want: subset of {'types', 'lists', 'bounds', 'nan', 'frame'}"""
        c = self.c
        q = "Bucket::storeParticles"
        with c.section(q):
            f = c.fn(q, 1)
            ex = c.executor()
            root = "p:" + (f["params"][0]["n"] or "_")
            pv = self.setup(ex, root)
            B = ("bucket",)
            self.numcells = self.S0.cells.get(("this", B + ("first", "#size")))
            keys = {k: ("this", B + (k, "[]")) for k in ("first", "last", "next")}
            if self.numcells is None or any(("this", B + (k, "#size")) not in self.S0.cells for k in keys):
                raise Missing("the cell lists are not the arrays first, last and next")
            tkey = pv.cell("type")
            self.cellpoly = None

            def cands(e, s):
                def mk(name, idx):
                    def g(get, ks):
                        if len(ks) != 1:
                            return None
                        F = lambda k: (lambda i: tm.subst(get(*keys[k], "I"), {arg(0): i}))
                        T = lambda i: tm.subst(get(*tkey, "I"), {arg(0): i})
                        return self.lists(pv, F("first"), F("last"), F("next"), T, ks[0])[idx][1]
                    return Inv(name, [keys["first"], keys["last"]], g)
                if keys["first"] not in s.W or keys["next"] not in s.W:
                    return []
                names = self.lists(pv, lambda i: i, lambda i: i, lambda i: i, lambda i: i, ONE)
                return [mk(n, q_) for q_, (n, _) in enumerate(names)]

            # first pass without invariants discovers the cell index; then the geometry is proved and used
            S = self.S0.copy()
            ex.init = None
            this = LV("this", B, (), c.rec("Bucket"))
            probe = c.executor()
            self.setup(probe, root)
            c.run(q, this, 1, ex=probe, st=self.S0.copy())
            c.execs.remove(probe)
            self.geometry(pv)
            self.cell_axiom(pv)
            ex.invariants = cands
            _, st, _ = c.run(q, this, 1, ex=ex, st=S)
            c.notes.append("loop invariants found inductive: " + str(ex.invlog))
            hy = list(st.pc) + self.pre
            i, j, b = tm.fresh("i", "I"), tm.fresh("j", "I"), tm.fresh("b", "I")
            c.cover("precondition", self.pre + [pv.inrange(i), self.inside(pv, i)])
            got = pv.fin(st, "type", i, sort="I")
            if "types" in want:
                c.eq("exactly the particles outside the closed box (or at an undefined position) become ghosts", got, self.newtype(pv, i), hy + [pv.inrange(i)])
            if "lists" in want:
                F = lambda k: (lambda i: tm.subst(ex.getcell(st, *keys[k], "I"), {arg(0): i}))
                T = lambda i: tm.subst(ex.getcell(st, *tkey, "I"), {arg(0): i})
                for name, g in self.lists(pv, F("first"), None, F("next"), T, self.n):
                    c.prove(name, g, hy)
            if "frame" in want:
                c.frame("frame", ex, st, lambda k: k == tkey or k[0] == "this", hy)
            kinds = [k for k, w in (("bounds", "bounds"), ("nan-cast", "nan"), ("fdiv", "bounds")) if w in want]
            if kinds:
                c.safety(ex, self.pre, kinds=kinds, extra=lambda o: self.facts if o.kind == "fdiv" else [])
            c.fact("always returns", not ex.exits, str(ex.exits)[:300])

    # ------------------------------------------------------------ setNeighbors
    def scan(self, want):
        c = self.c
        q = NS + "::setNeighbors"
        with c.section(q):
            f = c.fn(q, 1)
            ex = c.executor()
            root = "p:" + (f["params"][0]["n"] or "_")
            pv = self.setup(ex, root)
            self.cell_axiom(pv)
            B = ("bucket",)
            calls = []

            def store(e_, node, obj, args, st):
                if not (isinstance(args[0], LV) and args[0].root == root and not args[0].path) or (obj.root, obj.path) != ("this", B):
                    raise Missing("the cell lists are built for something else")
                if calls:
                    raise Missing("the cell lists are built more than once")
                calls.append(1)
                st.cells[pv.cell("type")] = self.newtype(pv, arg(0))
                for k in ("first", "last", "next"):
                    st.cells[("this", B + (k, "[]"))] = tm.app("L:" + k, (arg(0),), "I")

            ex.ext["Bucket::storeParticles"] = store
            first = lambda b: tm.app("L:first", (b,), "I")
            nxt = lambda i: tm.app("L:next", (i,), "I")
            act = lambda i: tm.and_(self.inside(pv, i), tm.not_(pv.is_(i, spec.GHOST)))
            rng = lambda i: tm.and_(tm.le(ZERO, i), tm.lt(i, self.n))
            inb = lambda b: tm.and_(tm.le(ZERO, b), tm.lt(b, self.numcells))
            c.axioms["L:first"] = lambda b: tm.implies(inb(b), tm.or_(tm.eq(first(b), MONE), tm.and_(rng(first(b)), act(first(b)), tm.eq(self.cell(first(b)), b))))
            c.axioms["L:next"] = lambda i: tm.implies(tm.and_(rng(i), act(i)), tm.or_(tm.eq(nxt(i), MONE), tm.and_(tm.lt(i, nxt(i)), rng(nxt(i)), act(nxt(i)), tm.eq(self.cell(nxt(i)), self.cell(i)))))

            # every element of a chain is an active particle of its cell (consequence of the chain rule below)
            def chat(start, nx, stop, k):
                b = self.bucket_of(start, nx, stop)
                x = tm.app("chat", (start, nx, stop, k), "I")
                return tm.implies(tm.and_(inb(b), tm.le(ZERO, k), tm.lt(k, tm.app("chlen", (start, nx, stop), "I"))),
                                  tm.and_(rng(x), act(x), tm.eq(self.cell(x), b)))
            c.axioms["chat"] = chat
            self.stops = {}
            _, st, _ = c.run(q, NS, 1, ex=ex, st=self.S0.copy())
            if not calls:
                raise Missing("the cell lists are not built by Bucket::storeParticles")
            i, j = tm.fresh("i", "I"), tm.fresh("j", "I")
            hy = list(st.pc) + self.pre + [pv.inrange(i)]
            c.cover("precondition", hy + [act(i), pv.inrange(j), act(j)])
            if "types" in want:
                c.eq("types are those of storeParticles", pv.fin(st, "type", i, sort="I"), self.newtype(pv, i), hy)
            if "frame" in want:
                c.frame("frame", ex, st, lambda k: k[0] == "this" or k == pv.cell("type") or k[1][:len(pv.base) + 1] == pv.base + ("neighbors",), self.pre)
            # cell offsets of the scan
            ncell = st.cells.get(pv.cell("neighbors", "#stream"))
            if ncell is None:
                raise Missing("no neighbour list is written")
            stream = tm.subst(ncell, {arg(0): i})
            stream = tm.subst(stream, {tm.le(ZERO, i): TRUE, tm.lt(i, self.n): TRUE})  # i is in range
            occ = self.occurrences(stream, hy, act, i, j)
            offs = sorted({o[0] for o in occ}, key=lambda t: t.id)
            gi = [tm.app(n, (i,), "I") for n, a, t in self.range_facts]
            hyg = hy + [act(i)] + [tm.subst(h, {tm.const("i", "I"): i}) for h in self.rng + self.prods]
            defi = [tm.eq(self.cell(i), self.cellexpr(i))]
            okb = True
            for o in offs:
                if tm.contains(o, lambda x: x.op == "app" and x.args[0] == "cellof" and x.args[1] is not i):
                    raise Missing("a scanned cell depends on something else")
                e = tm.subst(o, {self.cell(i): self.cellexpr(i)})
                m = {tm.const("i", "I"): i}
                okb &= self.lin("scanned cell is in the grid: " + tm.show(tm.sub(o, self.cell(i)))[:60], tm.and_(tm.le(ZERO, e), tm.lt(e, self.numcells)), [tm.subst(h, m) for h in self.rng + self.prods])
            lem = []
            for o in offs:
                lem.append(inb(o))
            if "stops" and self.stops:
                for s in self.stops.values():
                    v = tm.fresh("v", "I")
                    c.prove("the scan of a cell ends exactly at -1", tm.iff(tm.subst(s[0], {s[1]: v}), tm.eq(v, MONE)), [tm.le(MONE, v)])
            if "bounds" in want:
                c.safety(ex, self.pre, kinds=("bounds", "fdiv"), extra=lambda o: self.bound_lemmas(o, act))
            if "nan" in want:
                c.safety(ex, self.pre, kinds=("nan-cast",))
            c.fact("always returns", not ex.exits, str(ex.exits)[:300])
            if "lists" in want:
                self.exact(pv, st, stream, occ, act, i, j, hy, lem)
        self.c.axioms.clear()

    def bucket_of(self, start, nx, stop):
        if not (start.op == "app" and start.args[0] == "L:first"):
            raise Missing("a scan does not start at the first particle of a cell")
        v = nx.args[0][0]
        if nx.args[1] is not tm.app("L:next", (v,), "I"):
            raise Missing("a scan does not follow the links of the cell list")
        self.stops[stop] = (stop.args[1], stop.args[0][0])
        return start.args[1]

    def bound_lemmas(self, o, act):
        """the geometry lemma for every cell index in the obligation"""
        out = []
        for x in tm.subterms(tm.and_(o.goal, *o.hyps)):
            if x.op == "app" and x.args[0] == "cellof" and not x.fv:
                i = x.args[1]
                m = {tm.const("i", "I"): i}
                if tm.isnum(tm.sub(o.goal, ZERO)) if o.goal.sort != "B" else False:
                    continue
                # offsets: cellof + off in range, proved by lin above for the generic particle
                for s in self.offs_seen:
                    e = tm.subst(s, {self.cell(self.offs_i): self.cell(i)})
                    out.append(tm.implies(act(i), tm.and_(tm.le(ZERO, e), tm.lt(e, self.numcells))))
        return out

    # ------------------------------------------------------------ the list as a set
    def occurrences(self, stream, hy, act, i, j):
        """[(cell index, condition for particle j in that cell to be listed, listed id, listed distance)]"""
        out = []

        def walk(t, cond, ctx):
            if t.op == "cat":
                for x in t.args:
                    walk(x, cond, ctx)
                return
            if t.op in ("site", "ite"):
                walk(t.args[1], tm.and_(cond, t.args[0]), ctx)
                walk(t.args[2], tm.and_(cond, tm.not_(t.args[0])), ctx)
                return
            if t.op == "sfor":
                (v,), lo, hi, body = t.args
                if ctx is not None:
                    raise Missing("nested scans")
                if not (lo is ZERO and hi.op == "app" and hi.args[0] == "chlen"):
                    raise Missing("a list is filled by something else than the scan of a cell")
                b = self.bucket_of(*hi.args[1:])
                x = tm.app("chat", tuple(hi.args[1:]) + (v,), "I")
                body = tm.subst(body, {x: j})
                if v in body.fv:
                    raise Missing("the scan position itself is used")
                walk(body, cond, b)
                return
            if t.op == "item" and t.args[0] == "el":
                if ctx is None:
                    raise Missing("a particle is listed outside a scan")
                out.append((ctx, cond, t.args[1], t.args[2]))
                return
            if t.op == "app" and cond is not None:
                self.initial.append((t, cond))
                return
            raise Missing("neighbour list of an unknown form: " + tm.show(t)[:200])

        self.initial = []
        walk(stream, TRUE, None)
        if not out:
            raise Missing("no particle is ever listed")
        self.offs_seen = sorted({o[0] for o in out}, key=lambda t: t.id)
        self.offs_i = i
        return out

    def exact(self, pv, st, stream, occ, act, i, j, hy, lem):
        c = self.c
        x, y = pv.vec("position", i), pv.vec("position", j)
        d2 = tm.add(*[tm.powi(tm.sub(y[a], x[a]), 2) for a in range(3)])
        dist = tm.sqrt(d2)
        near = tm.lt(dist, self.re)
        H = hy + [pv.inrange(j), act(i)]
        for t, cond in self.initial:
            c.prove("old list entries survive only for ghosts", tm.not_(cond), hy + [act(i)])
        # per-axis lemma: closer than the radius means at most one cell apart
        pos = {"xyz"[a]: a for a in range(3)}
        delta = {}
        for n, a, top in self.range_facts:
            e = [k for k, v in self.grids.items() if v == n][0]
            b = tm.bv("@p")
            ei, ej = tm.subst(e, {b: i}), tm.subst(e, {b: j})
            D = tm.sub(ej, ei)
            k = pos[a]
            sep = tm.and_(tm.lt(tm.sub(y[k], x[k]), self.re), tm.lt(tm.sub(x[k], y[k]), self.re))
            c.prove(f"closer than the radius along {a}: at most one cell apart", tm.and_(tm.le(MONE, D), tm.le(D, ONE)), self.pre + [self.inside(pv, i), self.inside(pv, j), sep])
            delta[a] = tm.sub(tm.app(n, (j,), "I"), tm.app(n, (i,), "I"))
            A = [tm.const(f"q{r}") for r in range(3)]
            dd = tm.sqrt(tm.add(*[tm.powi(q, 2) for q in A]))
            c.prove(f"distance below the radius: separation along {a} below the radius", tm.and_(tm.lt(A[k], self.re), tm.lt(tm.neg(A[k]), self.re)),
                    [tm.lt(ZERO, self.re), tm.lt(dd, self.re), tm.le(tm.powi(A[k], 2), tm.add(*[tm.powi(q, 2) for q in A]))])
        want = tm.and_(act(j), tm.not_(tm.eq(i, j)), near)
        cellj = lambda b: tm.eq(self.cell(j), b)
        listed = [tm.and_(act(j), cellj(b), cond) for b, cond, _, _ in occ]
        # soundness: whatever is listed is an active particle other than i, closer than the radius, under its id and true distance
        for q, (b, cond, idt, dt) in enumerate(occ):
            h = H + [listed[q]]
            c.prove(f"scan {q}: a listed particle is another active particle closer than the radius", want, h)
            c.eq(f"scan {q}: listed under its own index", idt, j, h)
            c.eq(f"scan {q}: listed with its true distance", dt, dist, h)
        # completeness: an active particle closer than the radius is filed in a scanned cell
        abst = {self.cell(j): tm.const("cj", "I"), self.cell(i): tm.const("ci", "I")}
        for ax in (-1, 0, 1):
            for ay in (-1, 0, 1):
                for az in (-1, 0, 1):
                    dv = {"x": ax, "y": ay, "z": az}
                    # cellof(j) for this displacement, by the code's own index polynomial
                    m = {tm.app(n, (j,), "I"): tm.add(tm.app(n, (i,), "I"), num(dv[a])) for n, a, _ in self.range_facts}
                    cj = tm.add(self.cell(i), tm.sub(tm.subst(self.cellexpr(j), m), self.cellexpr(i)))
                    hits = []
                    for q, (b, cond, _, _) in enumerate(occ):
                        if tm.sub(b, cj) is ZERO:
                            hits.append(cond)
                    ok = c.prove(f"particles {dv} cells away and closer than the radius are listed", tm.or_(*hits), H + [want])
                    if not ok and not hits:
                        c.obls[-1]["definite"] = False  # no scanned cell was recognised as this one
        # uniqueness: no two scans visit the same cell
        bs = [o[0] for o in occ]
        nx3 = [tm.le(num(3), tm.add(t, num(3))) for _, _, t in self.range_facts]
        tops = {a: t for _, a, t in self.range_facts}
        pr = [tm.le(ZERO, tm.mul(tops[a], tops[b])) for a in "xyz" for b in "xyz" if a < b] + [tm.le(ZERO, tops[a]) for a in "xyz"]
        self.diffs = {}
        bad = 0
        for p in range(len(bs)):
            for r in range(p):
                d = tm.sub(bs[p], bs[r])
                if tm.neg(d) in self.diffs or d in self.diffs:
                    continue
                self.diffs[d] = (p, r)
        for d, (p, r) in self.diffs.items():
            if d is ZERO:
                # the same cell twice: the conditions must exclude each other
                c.prove(f"scans {r} and {p} visit the same cell but list no particle twice", tm.not_(tm.and_(occ[p][1], occ[r][1])), H + [want])
            else:
                self.lin(f"scans {r} and {p} visit different cells", tm.not_(tm.eq(d, ZERO)), pr)
