"""C16: profile and CSV outputs are faithful."""
from .. import terms as tm
from . import fileio
from .c15 import saver, same_leaves
from ..exec import LV

HARNESS = "h_io"
SOURCES = "all"
LINK = ["-lyaml-cpp"]
CASES = {"quick": 1500, "thorough": 20000}


def verify(c):
    saver(c)
    set_particles(c)
    with c.section("ParticlesExporter::toProf"):
        fileio.export(c, "toProf", lambda ex, pv, t: fileio.prof_stream(pv, t))
    with c.section("ParticlesExporter::toCsv"):
        fileio.export(c, "toCsv", lambda ex, pv, t: fileio.csv_stream(pv, t))
    c.assume_text("formatted output of int and double by operator<< is the standard library's; a file that was opened takes everything written to it")


def set_particles(c):
    with c.section("ParticlesExporter::setParticles"):
        ex = c.executor()
        p = LV("p:given", (), (), c.rec("Particles"))
        _, st, _ = c.run("ParticlesExporter::setParticles", "ParticlesExporter", ex=ex, args=[p])
        d = same_leaves(ex, st, LV("this", ("particles",), (), c.rec("Particles")), p)
        c.fact("takes over the whole particle set", d is None, str(d))
        c.fact("always returns", not ex.exits, str(ex.exits)[:300])
