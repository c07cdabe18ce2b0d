"""C24: generated initial layouts are as designed."""
from fractions import Fraction
from .. import terms as tm, iolib, loops, spec
from ..exec import LV, VOID
from ..check import Missing
from ..terms import ZERO, ONE, num, TRUE, FALSE, arg
from .c15 import note, same_leaves

HARNESS = "h_gen"
from .c22 import SOURCES, PROGRAMS, LINK  # noqa
CASES = {"quick": 1, "thorough": 1}
NADD = ("#adds", ("n",))


def verify(c):
    l0 = Fraction("0.025")
    box = lambda a, b, cc, d: lambda x, y: tm.and_(tm.le(num(a), x), tm.le(x, num(b)), tm.le(num(cc), y), tm.le(y, num(d)))
    last = [("dummy wall", spec.DUMMY, box(-4, 44, -4, 24)), ("wall", spec.WALL, box(-2, 42, -2, 24)), ("wall", spec.WALL, box(-4, 44, 22, 24)),
            ("empty", None, box(0, 40, 0, 24)), ("fluid", spec.FLUID, box(0, 10, 0, 20))]
    generator(c, "dambreak", l0, Fraction(0), (-4, 44, -4, 28), last[::-1])
    l0 = Fraction("0.012")
    first = [("empty", None, box(-15, 14, 40, 49)), ("fluid", spec.FLUID, box(-15, 14, 0, 39)), ("wall", spec.WALL, box(-17, 16, -2, 49)),
             ("dummy wall", spec.DUMMY, box(-19, 18, -4, 49))]
    generator(c, "hydrostatic", l0, Fraction(1, 2), (-19, 18, -4, 49), first)
    c.assume_text("lattice coordinates are computed in exact arithmetic (every region boundary is at least 1 % of the spacing away from any lattice site it separates)")


def generator(c, name, l0, off, rng, regions):
    src = f"generator/generate_{name}.cpp"
    with c.section(src):
        f = c.prog.functions.get("main@" + src)
        if f is None:
            raise Missing("main of " + src)
        ex = c.executor()
        ex.overrides[NADD] = ZERO
        ex.norunroll = lambda node: ex.stack and ex.stack[-1] == "main"
        adds, rec = [], []

        def size(e_, node, obj, args, st):
            if adds and adds[0] != obj.key():
                raise Missing("several particle sets")
            return e_.getcell(st, *NADD, "I")

        def add(e_, node, obj, args, st):
            adds.append(obj.key())
            p = args[0] if isinstance(args[0], LV) else e_.materialize(st, args[0], c.rec("Particle"))
            g = lambda s, *q: e_.read_leaf(st, p, q, s)
            n = e_.getcell(st, *NADD, "I")
            vals = [g("I", "type")] + [g("R", "position", str(i)) for i in range(3)] + [g("R", "velocity", str(i)) for i in range(3)] + [g("R", "density"), g("I", "fluidType")]
            e_.oblige("id", st, tm.eq(g("I", "id"), n), e_.where(node))
            note(e_, st, "add", *vals)
            st.cells[NADD] = tm.add(n, ONE)
            return VOID

        ended = []

        def dialogue(e_, node, obj, args, st):
            lst = args[2]
            lst = lst if isinstance(lst, LV) else e_.materialize(st, lst, {"c": "rec", "n": "std::vector", "a": [iolib.STRT]})
            n = e_.size_of(st, lst)
            k = int(tm.cval(n))
            exts = [e_.rv(st, lst.elem(num(i), iolib.STRT)) for i in range(k)]
            ended.append((e_.rv(st, args[0]), args[1].key() if isinstance(args[1], LV) else None, exts, iolib.log(e_, st)))
            return VOID

        ex.ext["Particles::size"] = size
        ex.ext["Particles::add"] = add
        ex.ext["GeneratorDialogue::generatorDialogue"] = dialogue
        ex.ext["ParticlesExporter::setParticles"] = lambda *a: VOID
        stack = []

        def hook(e_, st, cond, body, inc, node):
            sm = loops.Summary(e_, st, cond, body, inc, node)
            sm.parent = stack[-1] if stack else None
            stack.append(sm)
            try:
                outs = sm.run()
            finally:
                stack.pop()
            if iolib.LOG in getattr(sm, "W", {}):
                rec.append(sm)
            return outs

        ex.loop_hook = hook
        st = None
        args = [LV("p:" + (p["n"] or "_"), (), (), f["types"][p["t"]]) for p in f["params"]]
        from ..exec import State
        st = State()
        c.funcs.add("main@" + src)
        ex.call_fn(f, None, args, st)
        with c.replay_decides():
            c.fact("ends by handing the particles to the export dialogue once", len(ended) == 1)
            par, who, exts, log = ended[0]
            c.fact("parent path", par is tm.strc("input/" + name), tm.show(par))
            c.fact("exports profile and VTU", [tm.show(x) for x in exts] == [tm.show(tm.strc(x)) for x in (".prof", ".vtu")], str([tm.show(x) for x in exts]))
        c.fact("one particle set, the exported one", set(adds) == {who}, str(set(adds)))
        inner = [s for s in rec if s.parent is not None]
        if not inner:
            raise Missing("no nested lattice loops")
        sm = inner[-1]
        om = sm.parent
        ky, kx = sm.induction_key(), om.induction_key()
        if ky is None or kx is None:
            raise Missing("the lattice loops are not counted")
        iy, ix = sm.msym(ky, "I"), om.msym(kx, "I")
        x0, x1, y0, y1 = rng
        # the loops enumerate the lattice
        c.eq("first column", ex.getcell(om.st, *kx, "I"), num(x0), [])
        c.eq("first row", ex.getcell(sm.st, *ky, "I"), num(y0), list(sm.st.pc))
        c.eq("next column", ex.getcell(om.cont, *kx, "I"), tm.add(ix, ONE), list(om.cont.pc))
        c.eq("next row", ex.getcell(sm.cont, *ky, "I"), tm.add(iy, ONE), list(sm.cont.pc))
        for nm, s, v, hi in (("columns", om, ix, x1), ("rows", sm, iy, y1)):
            c.prove(f"{nm}: no site beyond the lattice", tm.implies(s.c, tm.le(v, num(hi))), [])
            c.prove(f"{nm}: no site left out", tm.implies(tm.le(v, num(hi)), s.c), [])
            c.fact(f"{nm}: the loop is not left early", s.brk is None and s.ret is None)
        # what happens at site (ix, iy)
        at = [tm.le(num(x0), ix), tm.le(ix, num(x1)), tm.le(num(y0), iy), tm.le(iy, num(y1))]
        c.cover("sites", at)
        M = sm.msym(iolib.LOG, "X")
        log = iolib.log(ex, sm.cont)
        items = tm.cat_items(log)
        c.fact("a site only adds particles", items[0] is M and all(only_adds(t) for t in items[1:]), tm.show(log)[:400])
        body = tm.cat(*items[1:])
        prev = []
        xs = [tm.mul(num(l0), tm.add(ix, num(off))), tm.mul(num(l0), tm.add(iy, num(off))), ZERO]
        n = 0
        for reg in regions + ([("outside", None, None)] if name == "dambreak" else []):
            nm, typ, inside = reg
            hy = at + prev + ([inside(ix, iy)] if inside else [])
            n += 1
            sect = f"region {n} ({nm})"
            r = resolve(ex, body, hy)
            if inside:
                prev = prev + [tm.not_(inside(ix, iy))]
            c.cover(sect, hy)
            if r is None:
                c.undecided(f"{sect}: which particle is added", "conditions not decided")
                continue
            if typ is None:
                c.fact(f"{sect}: no particle", r is tm.NIL, tm.show(r)[:300])
                continue
            if not (r.op == "item" and r.args[0] == "add"):
                c.fact(f"{sect}: exactly one particle", False, tm.show(r)[:300])
                continue
            t, px, py, pz, vx, vy, vz, d, ft = r.args[1:]
            c.eq(f"{sect}: type", t, num(typ), hy)
            for a, (g, w) in enumerate(zip((px, py, pz), xs)):
                c.eq(f"{sect}: position[{a}]", g, w, hy)
            for a, g in enumerate((vx, vy, vz)):
                c.eq(f"{sect}: velocity[{a}]", g, ZERO, hy)
            c.eq(f"{sect}: density", d, num(1000), hy)
            c.eq(f"{sect}: fluid type", ft, ZERO, hy)
        c.safety(ex, kinds=("id",), name="consecutive ids from 0")
        c.fact("never ends the program early", not ex.exits, str(ex.exits)[:300])


def only_adds(t):
    return all(x.args[0] == "add" for x in tm.subterms(t) if x.op == "item") and not any(x.op in ("sfor",) for x in tm.subterms(t))


def resolve(ex, t, hy, depth=0):
    """the stream under the assumptions"""
    if t.op == "site":
        cnd = t.args[0]
        if ex.prover.prove(cnd, hy).ok:
            return resolve(ex, t.args[1], hy)
        if ex.prover.prove(tm.not_(cnd), hy).ok:
            return resolve(ex, t.args[2], hy)
        a, b = resolve(ex, t.args[1], hy + [cnd]), resolve(ex, t.args[2], hy + [tm.not_(cnd)])
        return a if a is b else None
    its = tm.cat_items(t)
    if len(its) > 1:
        rs = [resolve(ex, x, hy) for x in its]
        return None if any(x is None for x in rs) else tm.cat(*rs)
    return t
