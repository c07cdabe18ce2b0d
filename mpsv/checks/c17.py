"""C17: VTU outputs are well formed and faithful."""
from .. import terms as tm, iolib
from . import fileio
from .c15 import note
from .c16 import set_particles
from ..exec import VOID
from ..terms import ZERO

HARNESS = "h_io"
SOURCES = "all"
LINK = ["-lyaml-cpp"]
CASES = {"quick": 1500, "thorough": 20000}
NOTE = ("#note", ("log",))


def verify(c):
    set_particles(c)
    n0 = tm.const("n0", "R")
    hy = [tm.not_(tm.eq(n0, ZERO))]
    with c.section("ParticlesExporter::toVtuAscii"):
        fileio.export(c, "toVtuAscii", lambda ex, pv, t: fileio.vtu_ascii(pv, n0, t), [n0], hyps=hy)
    with c.section("ParticlesExporter::toVtuBinary"):
        fileio.export(c, "toVtuBinary", lambda ex, pv, t: fileio.vtu_binary(pv, n0, t), [n0], hyps=hy)
    select(c)
    c.assume_text("formatted output of int and double by operator<< is the standard library's; a file that was opened takes everything written to it")
    c.assume_text("the machine is little-endian; sizes of int, double and the fixed-width types as on the platform of the build")


def select(c):
    """toVtu: the binary form when asked for, else the ASCII form, with the arguments passed on"""
    with c.section("ParticlesExporter::toVtu"):
        ex = c.executor()
        for k in ("toVtuAscii", "toVtuBinary"):
            def h(e_, node, obj, args, st, k=k):
                note(e_, st, k, *([e_.rv(st, a) for a in args]))
                return VOID
            ex.ext["ParticlesExporter::" + k] = h
        p, t, n0, b = tm.const("path", "S"), tm.const("time", "R"), tm.const("n0", "R"), tm.const("binary", "B")
        _, st, _ = c.run("ParticlesExporter::toVtu", "ParticlesExporter", ex=ex, args=[p, t, n0, b])
        want = tm.site(b, tm.item("toVtuBinary", p, t, n0), tm.item("toVtuAscii", p, t, n0))
        c.eq("the asked form is written once", iolib.log(ex, st), want, list(st.pc))
        c.fact("always returns", not ex.exits, str(ex.exits)[:300])
