"""C22: existing input files are never silently overwritten."""
import contextlib

from .. import terms as tm, iolib, loops, spec
from ..exec import LV, VOID, SV
from ..check import Missing
from ..terms import ZERO, ONE, num, TRUE, FALSE, arg
from .c15 import note, same_leaves

HARNESS = "h_gen"
SOURCES = ["all", "generator/generator_src/generator_dialogue.cpp"]
PROGRAMS = {"mps": ["all", "src/main.cpp"]}
for _g in ("dambreak", "hydrostatic"):
    PROGRAMS["generate_" + _g] = ["all", f"generator/generate_{_g}.cpp", "generator/generator_src/generator_dialogue.cpp"]
    PROGRAMS["dump_" + _g] = ["all", f"generator/generate_{_g}.cpp", "harness/dump_dialogue.cpp"]
LINK = ["-lyaml-cpp"]
CASES = {"quick": 400, "thorough": 1500}


def verify(c):
    copy(c)
    load(c, False)
    dialogue(c)


def exists(p):
    return tm.app("exists", (p, ZERO), "B")


def copy(c):
    with c.section("Loader::copyInputFileToOutputDirectory"):
        ex = c.executor()
        src, out = tm.const("inputFile", "S"), tm.const("outputDirectory", "S")
        dst = iolib.join(out, iolib.S("filename", src))
        there = exists(dst)
        st = None
        ex, st, _ = c.run("Loader::copyInputFileToOutputDirectory", "Loader", ex=ex, args=[src, out])
        hy = list(st.pc)
        with c.replay_decides():
            c.prove("goes on only if no file of that name is there", tm.not_(there), hy)
            log = iolib.log(ex, st)
            ok = log.op == "item" and log.args[0] in ("copy_file", "copy")
            c.fact("copies the file and does nothing else to the file system", ok, tm.show(log)[:300])
            if ok:
                c.eq("source of the copy", log.args[1], src, hy)
                c.eq("target of the copy", log.args[2], dst, hy)
                c.fact("the copy never overwrites", len(log.args) == 3, tm.show(log))
        n = 0
        for k, pc, S, where in ex.exits:
            n += 1
            c.prove(f"ends at {where} only if the file is there", there, pc)
            if k == "exit":
                c.prove(f"error status at {where}", tm.not_(tm.eq(S.cells[("#exit", ())], ZERO)), pc)
            c.prove(f"nothing is written before ending at {where}", iolib.quiet(S.cells.get(iolib.LOG, tm.NIL)), pc)
        c.fact("an existing file ends the program", n >= 1, "")


def load(c, results=True):
    with c.section("Loader::load"):
        ex = c.executor()
        sp, od = tm.const("settingPath", "S"), tm.const("outputDirectory", "S")
        SET, PART = LV("loadedSettings", (), (), c.rec("Settings")), LV("loadedParticles", (), (), c.rec("Particles"))

        def settings(e_, node, obj, args, st):
            note(e_, st, "settings", e_.rv(st, args[0]))
            return SET

        def loader(e_, node, obj, args, st):
            note(e_, st, "loader", e_.rv(st, args[0]))
            return SV({"c": "rec", "n": "std::unique_ptr", "a": [c.rec("ParticlesLoader::Interface")]}, {("#ptr",): tm.const("theLoader", "O")})

        def virt(e_, node, obj, args, st):
            note(e_, st, "load", e_.rv(st, args[0]), e_.rv(st, args[1]))
            lv = LV("pair@0", (), (), {"c": "rec", "n": "std::pair", "a": [{"c": "flt", "w": 64}, c.rec("Particles")]})
            e_.symname = dict(e_.symname)
            return lv

        def cp(e_, node, obj, args, st):
            note(e_, st, "copy", e_.rv(st, args[0]), e_.rv(st, args[1]))
            return VOID

        ex.ext["Loader::loadSettingYaml"] = settings
        ex.ext["Loader::getParticlesLoader"] = loader
        ex.virtual["ParticlesLoader::Interface::load"] = virt
        ex.ext["Loader::copyInputFileToOutputDirectory"] = cp
        _, st, v = c.run("Loader::load", "Loader", ex=ex, args=[sp, od])
        hy = list(st.pc)
        o = ex.materialize(st, v, c.rec("Input"))
        pp = ex.init_cell("loadedSettings", ("particlesPath",), "S")
        dd = ex.init_cell("loadedSettings", ("defaultDensity",), "R")
        log = tm.cat_items(iolib.log(ex, st))
        want = {"settings": [(sp,)], "loader": [(pp,)], "load": [(pp, dd)], "copy": [(sp, od), (pp, od)]}
        for k, ws in want.items():
            got = [i.args[1:] for i in log if i.op == "item" and i.args[0] == k]
            c.fact(f"{k}: called with its own arguments", sorted(map(str, got)) == sorted(map(str, ws)), f"got {[tm.show(x) for g in got for x in g]}")
        c.fact("no other effect on the file system", all(i.op == "item" and i.args[0] in want for i in log), tm.show(iolib.log(ex, st))[:300])
        with contextlib.nullcontext() if results else c.replay_decides():
            d = same_leaves(ex, st, o.field("settings", ty=c.rec("Settings")), SET)
            c.fact("settings are taken over", d is None, str(d))
            d = same_leaves(ex, st, o.field("particles", ty=c.rec("Particles")), LV("pair@0", ("second",), (), c.rec("Particles")))
            c.fact("particles are taken over", d is None, str(d))
            c.eq("start time is taken over", ex.read_leaf(st, o, ("startTime",), "R"), ex.init_cell("pair@0", ("first",), "R"), hy)
        c.fact("always returns", not ex.exits, str(ex.exits)[:300])


ASKED, LAST = ("#dialogue", ("asked",)), ("#dialogue", ("last",))  # ghost state: an answer has been read; the last answer


def dialogue(c):
    with c.section("GeneratorDialogue::generatorDialogue"):
        ex = c.executor()
        ex.overrides[ASKED] = FALSE
        parent = tm.const("parentPath", "S")
        P = LV("p:particles", (), (), c.rec("Particles"))
        STR = {"c": "rec", "n": "std::basic_string", "a": []}
        E = LV("p:extensions", (), (), {"c": "rec", "n": "std::vector", "a": [STR]})
        N = ex.init_cell("p:extensions", ("#size",), "I")
        ext = lambda i: tm.subst(ex.init_cell("p:extensions", ("[]",), "S"), {arg(0): i})
        yes = lambda r: tm.or_(tm.eq(r, tm.strc("y")), tm.eq(r, tm.strc("Y")))
        no = lambda r: tm.or_(tm.eq(r, tm.strc("n")), tm.eq(r, tm.strc("N")))
        ghost = lambda e_, st: (e_.getcell(st, *ASKED, "B"), e_.getcell(st, *LAST, "S"))
        exports, again = [], []

        def answer(st, v):
            st.cells[ASKED], st.cells[LAST] = TRUE, v

        def exported(kind):
            def h(e_, node, obj, args, st):
                d = same_leaves(e_, st, LV(obj.root, obj.path + ("particles",), obj.idxs, c.rec("Particles")), P)
                c.fact(f"{kind} exports the given particles", d is None, str(d))
                exports.append((list(st.pc), *ghost(e_, st)))
                note(e_, st, kind, *[e_.rv(st, a) for a in args[:2]])
                return VOID
            return h

        for k in ("toProf", "toVtu", "toCsv"):
            ex.ext["ParticlesExporter::" + k] = exported(k)

        def hook(e_, st, cond, body, inc, node):
            first = st.copy()
            sm = loops.Summary(e_, st, cond, body, inc, node)
            outs = sm.run()
            if LAST in sm.W:  # a loop that reads answers: the states in which it goes on
                if sm.cont is not None:
                    again.append(more(e_, sm.cont.copy(), cond, inc))
                again.append(more(e_, first, cond, lambda S: None))
                c.fact("asking writes nothing", iolib.LOG not in sm.W, "")
            return outs

        def more(e_, S, cond, inc):
            """the path to the next question, the ghost state there"""
            old, e_.noobl = e_.noobl, True
            try:
                inc(S)
                g = ghost(e_, S)
                t = cond(S)
            finally:
                e_.noobl = old
            return list(S.pc) + [t], *g

        ex.loop_hook, ex.cin_hook = hook, answer
        ex, st, _ = c.run("GeneratorDialogue::generatorDialogue", "GeneratorDialogue", ex=ex, args=[parent, P, E])
        if not again:
            raise Missing("no loop that reads answers")
        for q, (pc, asked, last) in enumerate(again):
            c.prove(f"asks again only after another answer ({q})", tm.implies(asked, tm.not_(tm.or_(yes(last), no(last)))), pc)
        known = lambda q: tm.or_(*[tm.eq(ext(q), tm.strc(o)) for o in (".prof", ".vtu", ".csv")])
        k_ = tm.bv("k")
        refused = tm.or_(tm.eq(N, ZERO), tm.ex_(k_, ZERO, N, tm.not_(known(k_))))
        # where the program ends, nothing is written and the user has said no, if asked
        for k, pc, S, where in ex.exits:
            asked, last = ghost(ex, S)
            c.prove(f"ends at {where} after a question only on n or N", tm.implies(asked, no(last)), pc)
            with c.replay_decides():
                c.prove(f"ends at {where} without a question only if the request is refused", tm.or_(asked, refused), pc)
            lg = S.cells.get(iolib.LOG, tm.NIL)
            c.prove(f"{k} at {where} before anything is written", iolib.quiet(lg), pc)
        # exporting over an existing file needs the answer
        i = tm.fresh("i", "I")
        path = lambda q: iolib.join(parent, iolib.str_concat(tm.strc("input"), ext(q)))
        if not exports:
            raise Missing("no export")
        present = [tm.le(ZERO, i), tm.lt(i, N), exists(path(i)), exists(parent)]
        ends = [(f"export {q}", *x) for q, x in enumerate(exports)] + [("returns", list(st.pc), *ghost(ex, st))]
        for nm, pc, asked, last in ends:
            c.prove(f"{nm}: after a question only on y or Y", tm.implies(asked, yes(last)), pc)
            with c.replay_decides():
                c.prove(f"{nm}: only for a request that is not refused", tm.not_(refused), pc)
                c.prove(f"{nm}: with an existing file only after a question", asked, pc + present)
        # what is exported: one file per extension, named after it
        items = [x for x in tm.cat_items(iolib.log(ex, st))]
        loopsX = [x for x in items if x.op == "sfor"]
        rest = [x for x in items if x.op != "sfor"]
        for x in rest:
            y = x
            if y.op == "site":
                y = y.args[1] if y.args[1] is not tm.NIL else y.args[2]
            with c.replay_decides():
                c.fact("otherwise only the directory is created", y.op == "item" and y.args[0] == "create_directories" and y.args[1] is parent, tm.show(x)[:300])
        with c.replay_decides():
            c.fact("one pass over the extensions writes the files", len(loopsX) == 1, tm.show(iolib.log(ex, st))[:400])
            if len(loopsX) == 1:
                (v,), lo, hi, body = loopsX[0].args
                c.eq("first extension", lo, ZERO, [])
                c.eq("last extension", hi, N, [])
                for kind, e_ in (("toProf", ".prof"), ("toVtu", ".vtu"), ("toCsv", ".csv")):
                    h = [tm.eq(ext(v), tm.strc(e_)), tm.le(ZERO, v), tm.lt(v, N)] + [tm.not_(tm.eq(tm.strc(e_), tm.strc(o))) for o in (".prof", ".vtu", ".csv") if o != e_]
                    got = simp(body, tm.strc(e_), ext(v))
                    c.fact(f"{e_} file is written as such", got.op == "item" and got.args[0] == kind, tm.show(got)[:300])
                    if got.op == "item" and got.args[0] == kind:
                        c.eq(f"{e_} file name", got.args[1], path(v), h)
                        c.eq(f"{e_} time", got.args[2], ZERO, h)


def simp(x, s, var):
    """the case var == s of a stream"""
    while x.op == "site":
        q = tm.subst(x.args[0], {var: s})
        if q is TRUE:
            x = x.args[1]
        elif q is FALSE:
            x = x.args[2]
        else:
            break
    return x
