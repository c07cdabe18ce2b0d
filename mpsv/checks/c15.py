"""C15: the simulation loop advances time and writes every output."""
from .. import terms as tm, iolib, loops, spec
from ..exec import LV, VOID, State
from ..check import Missing
from ..terms import ZERO, ONE, num, TRUE, FALSE, arg

HARNESS = "h_io"
SOURCES = "all"
LINK = ["-lyaml-cpp"]
PROGRAMS = {"mps": ["all", "src/main.cpp"]}
CASES = {"quick": 600, "thorough": 1500}


def verify(c):
    saver(c)
    construct(c)
    run(c)


def note(ex, st, kind, *vals):
    st.cells[iolib.LOG] = tm.cat(iolib.log(ex, st), tm.item(kind, *vals))


def same_leaves(ex, st, a, b, skip=()):
    """two objects hold the same values"""
    for rel, s in ex.leaves(a.ty):
        if rel[-1] in ("#stream",) or rel[0] in skip:
            continue
        if ex.read_leaf(st, a, rel, s) is not ex.read_leaf(st, b, rel, s):
            return rel
    return None


def saver(c):
    with c.section("Saver::save"):
        ex = c.executor()
        m = LV("p:mps", (), (), c.rec("MPS"))
        n0 = ex.init_cell("p:mps", ("refValuesForNumberDensity", "n0"), "R")
        num_ = ex.init_cell("this", ("fileNumber",), "I")
        out = LV("this", ("exporter", "particles"), (), c.rec("Particles"))
        seen = []

        def exported(kind):
            def h(e_, node, obj, args, st):
                src = LV("p:mps", ("particles",), (), c.rec("Particles"))
                if obj.key() != ("this", ("exporter",)):
                    raise Missing("another exporter is used")
                d = same_leaves(e_, st, LV("this", ("exporter", "particles"), (), c.rec("Particles")), src)
                c.fact(f"{kind} exports the particles of the simulation", d is None, str(d))
                a = [e_.rv(st, x) for x in args]
                note(e_, st, kind, *a)
                seen.append(kind)
                return VOID
            return h

        for k in ("toProf", "toVtu", "toCsv"):
            ex.ext["ParticlesExporter::" + k] = exported(k)
        time = tm.const("time", "R")
        _, st, _ = c.run("Saver::save", "Saver", ex=ex, args=[m, time])
        hy = list(st.pc)
        d, b = ex.init_cell("this", ("dir",), "S"), ex.init_cell("this", ("outputVtkInBinary",), "B")

        def name(ext):
            x = tm.cat(tm.item("lit", tm.strc("output_")), tm.item("int", num_, num(4), tm.strc("0")), tm.item("lit", tm.strc("." + ext)))
            return iolib.S("sstr", x)

        f = lambda ext: iolib.join(iolib.join(d, tm.strc(ext)), name(ext))
        got = tm.cat_items(iolib.log(ex, st))
        want = {"toProf": (f("prof"), time), "toVtu": (f("vtu"), time, n0, b), "toCsv": (f("csv"), time)}
        with c.replay_decides():
            c.fact("profile, VTU and CSV file are written, one each", sorted(i.args[0] for i in got if i.op == "item") == sorted(want) and len(got) == 3, tm.show(iolib.log(ex, st))[:400])
            for i in got:
                for k, w in enumerate(want.get(i.args[0], ())):
                    c.eq(f"{i.args[0]} argument {k}", i.args[k + 1], w, hy)
        c.eq("file number advances by one", ex.read_leaf(st, LV("this", (), (), c.rec("Saver")), ("fileNumber",), "I"), tm.add(num_, ONE), hy)
        c.frame("frame", ex, st, lambda q: q[0] == "this" and (q[1][0] == "exporter" or q[1] == ("fileNumber",)), hy)
        c.fact("always returns", not ex.exits, str(ex.exits)[:300])


def construct(c):
    with c.section("Simulation::Simulation"):
        ex = c.executor()
        loaded = LV("loaded", (), (), c.rec("Input"))

        def load(e_, node, obj, args, st):
            note(e_, st, "load", *[e_.rv(st, a) for a in args])
            return loaded

        def create(e_, node, obj, args, st):
            a = args[0]
            d = same_leaves(e_, st, a, loaded) if isinstance(a, LV) else "?"
            if d is not None:
                raise Missing(f"the factory is given another input ({d})")
            return LV("created", (), (), c.rec("MPS"))

        ex.ext["Loader::load"] = load
        ex.ext["MPSFactory::create"] = create
        sp, od = tm.const("settingPath", "S"), tm.const("outputDirectory", "S")
        _, st, _ = c.run("Simulation::Simulation", "Simulation", ex=ex, args=[sp, od])
        hy = list(st.pc)
        th = LV("this", (), (), c.rec("Simulation"))
        g = lambda s, *p: ex.read_leaf(st, th, p, s)
        I = lambda s, *p: ex.init_cell("loaded", p, s)
        for k in ("time", "startTime"):
            c.eq(k, g("R", k), I("R", "startTime"), hy)
        for k in ("dt", "endTime", "outputPeriod"):
            c.eq(k, g("R", k), I("R", "settings", k), hy)
        c.eq("output directory", g("S", "saver", "dir"), od, hy)
        c.eq("VTU format", g("B", "saver", "outputVtkInBinary"), I("B", "settings", "outputVtkInBinary"), hy)
        c.eq("first file number", g("I", "saver", "fileNumber"), ZERO, hy)
        c.eq("no step yet", g("I", "timeStep"), ZERO, hy)
        d = same_leaves(ex, st, th.field("mps", ty=c.rec("MPS")), LV("created", (), (), c.rec("MPS")))
        c.fact("the simulation object is the one created for the input", d is None, str(d))
        log = tm.cat_items(iolib.log(ex, st))
        ld = [i for i in log if i.args[0] == "load"]
        ok = len(ld) == 1 and ld[0].args[1] is sp and ld[0].args[2] is od
        c.fact("loads the given settings file for the given output directory", ok, tm.show(iolib.log(ex, st))[:300])
        log = [i.args[2] if i.op == "site" and i.args[1] is tm.NIL else i for i in log]
        dirs = {i.args[1] for i in log if i.args[0] in ("create_directories", "create_directory")}
        with c.replay_decides():
            c.fact("creates the three output directories", dirs == {iolib.join(od, tm.strc(x)) for x in ("prof", "vtu", "csv")}, str([tm.show(x) for x in dirs]))
        c.fact("no other effect", all(i.args[0] in ("load", "create_directories", "create_directory") for i in log), tm.show(iolib.log(ex, st))[:300])
        c.fact("always returns", not ex.exits, str(ex.exits)[:300])


def run(c):
    with c.section("Simulation::run"):
        ex = c.executor()
        th = LV("this", (), (), c.rec("Simulation"))
        T, F = ("this", ("time",)), ("this", ("saver", "fileNumber"))
        I = lambda *p, sort="R": ex.init_cell("this", p, sort)
        rec = []

        def step(e_, node, obj, args, st):
            if obj.key() != ("this", ("mps",)):
                raise Missing("another simulation object is advanced")
            note(e_, st, "step")
            return VOID

        def save(e_, node, obj, args, st):
            if obj.key() != ("this", ("saver",)) or not isinstance(args[0], LV) or args[0].key() != ("this", ("mps",)):
                raise Missing("another object is saved")
            n = e_.getcell(st, *F, "I")
            note(e_, st, "save", e_.rv(st, args[1]), n)
            st.cells[F] = tm.add(n, ONE)
            return VOID

        ex.ext["MPS::stepForward"] = step
        ex.ext["Saver::save"] = save

        def hook(e_, st, cond, body, inc, node):
            sm = loops.Summary(e_, st, cond, body, inc, node)
            outs = sm.run()
            if iolib.LOG in getattr(sm, "W", {}):
                rec.append((sm, outs))
            return outs

        ex.loop_hook = hook
        _, st, _ = c.run("Simulation::run", "Simulation", ex=ex)
        if len(rec) != 1:
            raise Missing(f"{len(rec)} loops with steps or outputs")
        sm, outs = rec[0]
        end, dt, start, per = I("endTime"), I("dt"), I("startTime"), I("outputPeriod")
        consts = [("this", (k,)) for k in ("endTime", "dt", "startTime", "outputPeriod")]
        for k in consts:
            c.fact(f"{k[1][0]} is constant", k not in sm.W and (k not in st.cells or st.cells[k] is I(k[1][0])), "")
        # before the loop: the initial state has been saved
        t0, f0 = I("time"), I("saver", "fileNumber", sort="I")
        log = tm.cat_items(iolib.log(ex, sm.st))
        c.fact("the initial state is saved before the first step", len(log) == 1 and log[0].args[0] == "save", tm.show(iolib.log(ex, sm.st))[:300])
        c.eq("initial save: time", log[0].args[1], t0, list(sm.st.pc))
        c.eq("initial save: file number", log[0].args[2], f0, list(sm.st.pc))
        c.eq("time before the first step", ex.getcell(sm.st, *T, "R"), t0, list(sm.st.pc))
        c.eq("file number before the first step", ex.getcell(sm.st, *F, "I"), tm.add(f0, ONE), list(sm.st.pc))
        # an arbitrary iteration
        t, f = sm.msym(T, "R"), sm.msym(F, "I") if F in sm.W else ex.getcell(sm.st, *F, "I")
        if T not in sm.W:
            c.fact("time advances in the loop", False, "the loop leaves it unchanged")
            return
        M = sm.msym(iolib.LOG, "X")
        R = restated(c, ex, sm, t, start, dt)
        hy = [R(x) for x in sm.cont.pc]
        c.cover("an iteration is possible", hy)
        t = R(t)
        c.prove("a step is taken only before the end time", tm.lt(t, end), hy)
        t1 = R(ex.getcell(sm.cont, *T, "R"))
        c.eq("time advances by dt", t1, tm.add(t, dt), hy)
        items = tm.cat_items(iolib.log(ex, sm.cont))
        ok = len(items) >= 2 and items[0] is M and items[1].op == "item" and items[1].args[0] == "step"
        c.fact("an iteration starts with exactly one step", ok and not any(steps(x) for x in items[2:]), tm.show(iolib.log(ex, sm.cont))[:400])
        due = tm.le(tm.mul(per, f), tm.sub(tm.add(t, dt), start))
        tail = items[2:]
        if len(tail) == 0:
            c.fact("outputs are written when due", False, "no save in the loop")
            return
        if len(tail) == 1 and tail[0].op == "site":
            cond, a, b = tail[0].args
            cond = R(cond)
            if a is tm.NIL:
                cond, a, b = tm.not_(cond), b, a
            c.prove("saved when elapsed time has reached period times the number of files", cond, hy + [due])
            c.prove("not saved earlier", tm.not_(cond), hy + [tm.not_(due)])
            sv = a
            c.fact("one save per step, otherwise nothing", b is tm.NIL and a.op == "item" and a.args[0] == "save", tm.show(tail[0])[:300])
            hs = hy + [cond]
        else:
            sv = tail[0]
            c.fact("saves only when due", False, tm.show(iolib.log(ex, sm.cont))[:400])
            return
        if sv.op != "item" or sv.args[0] != "save":
            return
        c.eq("saved with the current time", R(sv.args[1]), tm.add(t, dt), hs)
        c.eq("saved with the next file number", sv.args[2], f, hs)
        f1 = R(ex.getcell(sm.cont, *F, "I"))
        c.eq("file number advances with a save only", f1, tm.add(f, tm.ite(due, ONE, ZERO)), hy)
        # leaving the loop
        exits = []
        if sm.c is not TRUE:
            exits.append((sm.after.copy().assume(tm.not_(sm.c)), "condition"))
        if sm.brk is not None:
            exits.append((sm.brk, "break"))
        for S, how in exits:
            c.prove(f"ends only at the end time ({how})", tm.le(end, t), [R(x) for x in S.pc])
            c.fact(f"no step or output when leaving ({how})", iolib.log(ex, S) is M, tm.show(iolib.log(ex, S))[:300])
        c.fact("no return from inside the loop", sm.ret is None)
        if "n" in outs:
            c.fact("nothing is stepped or saved after the loop", iolib.log(ex, st) is iolib.log(ex, outs["n"][0]), tm.show(iolib.log(ex, st))[:300])
        c.fact("never ends the program", not ex.exits, str(ex.exits)[:300])


def restated(c, ex, sm, t, start, dt):
    """a loop that computes the time from the number of steps: the invariant time = startTime + timeStep * dt (true after the
    constructor, see construct) is proved to be kept, and then used; for any other loop nothing is assumed about the time"""
    T, N = ("this", ("time",)), ("this", ("timeStep",))
    t1 = ex.getcell(sm.cont, *T, "R")
    if t1 is tm.add(t, dt) or N not in sm.W:
        return lambda x: x
    inv = lambda k: tm.add(start, tm.mul(dt, k))
    n = sm.msym(N, "I")
    R = lambda x: tm.subst(x, {t: inv(n)})
    n1 = ex.getcell(sm.cont, *N, "I")
    if not c.prover.prove_eq(R(t1), inv(R(n1)), [R(x) for x in sm.cont.pc]).ok:
        return lambda x: x
    c.fact("time = startTime + timeStep * dt is kept by the loop", True)
    c.eq("number of steps before the first step", ex.getcell(sm.st, *N, "I"), ex.init_cell(*N, "I"), list(sm.st.pc))
    c.eq("the start time is kept", ex.getcell(sm.st, "this", ("startTime",), "R"), start, list(sm.st.pc))
    return R


def steps(x):
    return tm.contains(x, lambda y: y.op == "item" and y.args[0] == "step")
