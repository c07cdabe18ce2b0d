"""C19: VTU loading reads back what the exporter wrote."""
from .. import terms as tm, iolib, spec
from . import fileio
from .c18 import select, DENS, PATH
from ..check import Missing
from ..exec import State
from ..terms import ZERO, ONE, num

HARNESS = "h_io"
SOURCES = "all"
LINK = ["-lyaml-cpp"]
CASES = {"quick": 6000, "thorough": 20000}
N0 = tm.const("n0", "R")


def verify(c):
    ascii(c)
    binary(c)
    select(c)
    c.assume_text("extraction of int and double by operator>> and std::stod is the standard library's; printed numbers consist of digits, sign, point, exponent, inf and nan")


def pr(x):
    return iolib.printed(tm.item("real", x))


def fields(pv, dens):
    return lambda i: fileio.fields(pv.type(i), pv.init("fluidType", i, sort="I"), [pr(x) for x in pv.vec("position", i)], [pr(x) for x in pv.vec("velocity", i)], dens(i))


def ascii(c):
    hy = [tm.not_(tm.eq(N0, ZERO))]
    with c.section("Vtu::load of ParticlesExporter::toVtuAscii"):
        ex, pv, out = fileio.export(c, "toVtuAscii", lambda ex, pv, t: fileio.vtu_ascii(pv, N0, t), [N0], hyps=hy)
        lx = c.executor()
        lx.files = {PATH: iolib.Lines(iolib.lines_of(out))}
        fileio.loaded(c, lx, "ParticlesLoader::Vtu::load", PATH, DENS, [tm.le(ZERO, pv.N)], pv.N, fields(pv, lambda i: DENS), pre="read back: ", start=pr(tm.const("time", "R")))
    with c.section("Vtu::load of a file with densities"):
        pv = spec.PView(c.executor(), "this", ("particles",))
        segs = iolib.lines_of(fileio.vtu_ascii(pv, N0, tm.const("time", "R")))  # the contract of toVtuAscii, proved above
        d = lambda i: tm.app("densityInFile", (i,), "R")
        v = tm.bv("row", "I")
        line = lambda s: ("line", fileio.lit(s))
        end = next(k for k, s in enumerate(segs) if s[0] == "line" and s[1] is fileio.lit("</PointData>"))
        segs = segs[:end] + [line('<DataArray type="Float64" Name="Density" NumberOfComponents="1" format="ascii">'), ("block", pv.N, v, fileio.rl(d(v))), line("</DataArray>")] + segs[end:]
        lx = c.executor()
        lx.files = {PATH: iolib.Lines(segs)}
        dens = lambda i: tm.ite(tm.le(ZERO, pr(d(i))), pr(d(i)), DENS)
        fileio.loaded(c, lx, "ParticlesLoader::Vtu::load", PATH, DENS, [tm.le(ZERO, pv.N)], pv.N, fields(pv, dens), pre="given densities: ", start=pr(tm.const("time", "R")))


def binary(c):
    with c.section("Vtu::load of ParticlesExporter::toVtuBinary"):
        hy = [tm.not_(tm.eq(N0, ZERO))]
        ex, pv, out = fileio.export(c, "toVtuBinary", lambda ex, pv, t: fileio.vtu_binary(pv, N0, t), [N0], hyps=hy)
        # the document up to the appended data; the bytes after it are arbitrary
        items, head = list(tm.cat_items(out)), []
        for x in items:
            if x.op != "item" or x.args[0] == "bin":
                break
            head.append(x)
        text = head[-1].args[1].args[0]
        head[-1] = fileio.lit(text[:text.rindex("\n") + 1])
        lx = c.executor()
        lx.files = {PATH: iolib.Lines(iolib.lines_of(tm.cat(*head)), open_end=True)}
        from ..exec import Dead
        try:
            _, st, v = c.run("ParticlesLoader::Vtu::load", "ParticlesLoader::Vtu", ex=lx, args=[PATH, DENS])
            c.fact("a binary file is not loaded", False, "the loader returns")
        except Dead:
            c.fact("a binary file is not loaded", True)
        c.fact("the program ends or an exception is thrown", bool(lx.exits), "")
        for k, pc, S, where in lx.exits:
            if k == "exit":
                c.prove(f"error status at {where}", tm.not_(tm.eq(S.cells[("#exit", ())], ZERO)), pc)
