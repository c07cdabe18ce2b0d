"""C23: iterations of parallel loops are independent."""
from .. import terms as tm
from ..exec import State
from ..modular import walk
from ..race import RaceExec, prime, overlap
from .. import spec
from .c05 import views

HARNESS = "h_race"
ARITHMETIC = False
SOURCES = "all"
FLAGS = ["-fopenmp", "-fsanitize=thread", "-DEIGEN_DONT_PARALLELIZE"]
LINK = ["-fsanitize=thread", "-lpthread"]
CASES = {"quick": 150, "thorough": 1500}


def verify(c):
    fns = []
    for f in c.prog.functions.values():
        n = sum(1 for x in walk([f.get("body")]) if x.get("k") == "omp" and x["d"] not in ("critical", "atomic"))
        if n:
            fns.append((f, n))
    with c.section("parallel loops"):
        c.fact(f"{sum(n for _, n in fns)} parallel loops in {len(fns)} functions", True)
    for f, n in sorted(fns, key=lambda x: (x[0]["tu"], x[0]["l"])):
        with c.section(f["q"]):
            one(c, f, n)
        c.axioms.clear()


def one(c, f, n):
    ex = RaceExec(c.prog, c.prover)
    c.execs.append(ex)
    cls = f.get("cls") or None
    for root, base in views(ex, c, f, cls):
        spec.wellformed(c, ex, spec.PView(ex, root, base))
    c.run(f["q"], cls, len(f["params"]), ex=ex)
    c.fact(f"all {n} loops are analysed", len({w for w, *_ in ex.found}) >= n, str([w for w, *_ in ex.found])) if len({w for w, *_ in ex.found}) >= n else c.undecided("all loops are analysed", f"{len(ex.found)} of {n}: {ex.problems}")
    for where, why in ex.problems:
        c.undecided(f"loop at {where}", why)
    for where, acc, it, local, pc in ex.found:
        if acc is None:
            continue
        loop(c, ex, where, acc, it, local)


def loop(c, ex, where, acc, it, local):
    byloc = {}
    for o in acc:
        a = o.note
        byloc.setdefault((a.root, a.path), []).append(o)
    cache = {}
    it2 = prime(it, local, cache)
    same = tm.eq(it, it2)
    writes = {k for k, os in byloc.items() if any(o.note.mode == "w" for o in os)}
    c.fact(f"loop at {where}: {len(byloc)} shared locations accessed, {len(writes)} of them written", True)
    for k in sorted(writes, key=str):
        os, seen, ok, n = byloc[k], set(), True, 0
        first = []
        for o in os:
            key = (o.note.mode, o.note.lock, o.goal, tuple(o.hyps))
            if key not in seen:
                seen.add(key)
                first.append(o)
        ws = [o for o in first if o.note.mode == "w"]
        name = k[0].replace("this", "", 1).lstrip(".") + "." + ".".join(k[1])
        done = set()
        for w in ws:
            for o in first:
                cond = overlap(w.note, o.note, w.goal.args[1:], [prime(x, local, cache) for x in o.goal.args[1:]], ex.bits)
                if cond is None:
                    continue
                key = (cond, tuple(w.hyps), tuple(o.hyps))
                if key in done:
                    continue
                done.add(key)
                n += 1
                if same in (cond.args if cond.op == "and" else (cond,)):
                    continue  # two different iterations name different elements
                hy = list(w.hyps) + [prime(h, local, cache) for h in o.hyps] + [tm.not_(tm.eq(it, it2))]
                r = c.prover.prove(tm.not_(cond), hy)
                if not r.ok:
                    ok = False
                    c.record(f"loop at {where}: {name.strip('.')} written by one iteration is not {'written' if o.note.mode == 'w' else 'read'} by another", r, where)
                    if (w.note.lock and w.note.lock == o.note.lock) or not (plain(w, it) and plain(o, it)):
                        c.obls[-1]["definite"] = False
                    break
            if not ok:
                break
        if ok:
            c.fact(f"loop at {where}: {name.strip('.')} is private to its iteration ({n} pairs of accesses)", True)
            c.obls[-1]["backend"] = "z3"


def plain(o, it):
    """the location is named by the iteration number, constants and neighbour ids alone: nothing the state could still constrain"""
    return all(not t.args[0].startswith("HAVOC") and (t is it or t.args[0].endswith(".neighbors.id") or t.args[0].startswith("k") or t.args[0].endswith(".id"))
               for i in o.goal.args[1:] for t in tm.subterms(i) if t.op == "app")
