"""C18: profile and CSV loading keeps every particle intact."""
from .. import terms as tm, iolib
from . import fileio
from .c21 import choose
from .c22 import load as loader_load
from ..exec import LV, strip_templates
from ..terms import ZERO, ONE, num

HARNESS = "h_io"
SOURCES = "all"
LINK = ["-lyaml-cpp"]
CASES = {"quick": 6000, "thorough": 20000}
DENS, PATH = tm.const("defaultDensity", "R"), tm.const("inputPath", "S")


def verify(c):
    prof(c)
    csv(c)
    select(c)
    loader_load(c)
    c.assume_text("input files are well formed: every token or field asked for is there and has the asked type; extraction of int and double is the standard library's and the csv library's")


def prof(c):
    with c.section("Prof::load"):
        ex = c.executor()
        tok = lambda p, s: tm.app("tok:" + s, (p,), s)
        n = tok(ONE, "I")
        ex.files = {PATH: iolib.Tokens(tok)}

        def want(i):
            at = lambda j, s="R": tok(tm.add(num(2 + j), tm.mul(num(7), i)), s)
            return fileio.fields(at(0, "I"), ZERO, [at(1 + a) for a in range(3)], [at(4 + a) for a in range(3)], DENS)

        fileio.loaded(c, ex, "ParticlesLoader::Prof::load", PATH, DENS, [tm.le(ZERO, n)], n, want, start=tok(ZERO, "R"))
    with c.section("Prof::load of ParticlesExporter::toProf"):
        ex, pv, out = fileio.export(c, "toProf", lambda ex, pv, t: fileio.prof_stream(pv, t))
        lx = c.executor()
        f, n = fileio.token_file(out)
        lx.files = {PATH: f}
        pr = lambda x: iolib.printed(tm.item("real", x))
        c.eq("rows", n, pv.N, [])
        want = lambda i: fileio.fields(pv.type(i), ZERO, [pr(x) for x in pv.vec("position", i)], [pr(x) for x in pv.vec("velocity", i)], DENS)
        fileio.loaded(c, lx, "ParticlesLoader::Prof::load", PATH, DENS, [tm.le(ZERO, n)], n, want, pre="read back: ", start=pr(tm.const("time", "R")))


def csv(c):
    with c.section("Csv::load"):
        ex = c.executor()
        val = lambda nm, r, s: tm.app(f"csv:{nm}:{s}", (r,), s)
        has = lambda nm: tm.const("column:" + nm, "B") if nm in ("fluidType", "density") else tm.TRUE
        n = tm.const("csvRows", "I")
        ex.files = {PATH: iolib.CsvFile(has, val, n, lambda k: tm.const(f"csvLine{int(tm.cval(k))}", "S"))}

        def want(i):
            d = val("density", i, "R")
            given = tm.and_(has("density"), tm.le(ZERO, d))
            return fileio.fields(val("type", i, "I"), tm.ite(has("fluidType"), val("fluidType", i, "I"), ZERO),
                                 [val(x, i, "R") for x in "xyz"], [val("v" + x, i, "R") for x in "xyz"], tm.ite(given, d, DENS))

        start = tm.app("stonum:R", (tm.const("csvLine0", "S"),), "R")
        fileio.loaded(c, ex, "ParticlesLoader::Csv::load", PATH, DENS, [tm.le(ZERO, n)], n, want, start=start)
        c.fact("the header is read from the third line", not getattr(ex.files[PATH], "problem", None), "")
    with c.section("Csv::load of ParticlesExporter::toCsv"):
        ex, pv, out = fileio.export(c, "toCsv", lambda ex, pv, t: fileio.csv_stream(pv, t))
        lx = c.executor()
        f, n = fileio.csv_file(out)
        lx.files = {PATH: f}
        pr = lambda x: iolib.printed(tm.item("real", x))
        c.eq("rows", n, pv.N, [])
        want = lambda i: fileio.fields(pv.type(i), pv.init("fluidType", i, sort="I"), [pr(x) for x in pv.vec("position", i)], [pr(x) for x in pv.vec("velocity", i)], DENS)
        fileio.loaded(c, lx, "ParticlesLoader::Csv::load", PATH, DENS, [tm.le(ZERO, n)], n, want, pre="read back: ", start=pr(tm.const("time", "R")))


def select(c):
    with c.section("Loader::getParticlesLoader"):
        ex = c.executor()
        p = tm.const("particlesPath", "S")
        _, st, v = c.run("Loader::getParticlesLoader", "Loader", ex=ex, args=[p])
        v = ex.rv(st, v)
        t = v.leaves[("#ptr",)] if hasattr(v, "leaves") else v
        e = iolib.S("extension", p)
        known = []
        for x, k in ((".csv", "Csv"), (".prof", "Prof"), (".vtu", "Vtu")):
            k = "ParticlesLoader::" + k
            hy = tm.eq(e, tm.strc(x))
            known.append(hy)
            X = st.copy().assume(hy)
            o = choose(ex, t, X)
            c.fact(f"{x} is loaded by {k}", strip_templates(o.ty["n"]) == k, o.ty["n"])
        c.prove("another extension is not loaded", tm.or_(*known), list(st.pc))
        for k, pc, S, where in ex.exits:
            c.prove(f"ends at {where} only for another extension", tm.not_(tm.or_(*known)), pc)
            if k == "exit":
                c.prove(f"error status at {where}", tm.not_(tm.eq(S.cells[("#exit", ())], ZERO)), pc)
