"""C03: the neighbour search is exact."""
from .ns import Search

HARNESS = "h_ns"
ARITHMETIC = False
SOURCES = "all"
SANITIZE = True
CASES = {"quick": 12000, "thorough": 100000}


def verify(c):
    s = Search(c)
    with c.section("NeighborSearcher::NeighborSearcher"):
        s.construct()
    s.store({"lists", "types"})
    s.scan({"lists", "types"})
