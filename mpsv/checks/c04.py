"""C04: particles outside the domain become ghosts; no access outside the grid and the particle arrays."""
from .ns import Search

HARNESS = "h_ns"
ARITHMETIC = False
SOURCES = "all"
SANITIZE = True
CASES = {"quick": 12000, "thorough": 100000}


def verify(c):
    s = Search(c)
    with c.section("NeighborSearcher::NeighborSearcher"):
        s.construct()
    s.store({"types", "frame", "bounds", "nan"})
    s.scan({"types", "frame", "bounds", "nan"})
