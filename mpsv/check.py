"""Framework of the checks: obligations, verdicts, evidence."""
import contextlib
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

from . import ir
from . import terms as tm
from .exec import Exec, State, LV, Unsupported, Dead, noref, recname
from .smt import Prover, Result
from .terms import TRUE, FALSE, arg, num

VERIF = ir.VERIF


ARITH = ("wrap", "range")
MAXELEM = 1 << 28


class Missing(Exception):
    """the code no longer has the shape the contract is stated over (undecided, not a violation)"""


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obls = []
        self.assumptions = []
        self.funcs = set()
        self.lib = set()
        self.t0 = time.time()
        self.deadline = self.t0 + (300 if tier == "quick" else 1200)
        self.axioms = {}
        self.prover = Prover(self.axioms, timeout_ms=6000 if tier == "quick" else 30000, deadline=self.deadline)
        self.prog = None
        self.bounded = []
        self.sect = "setup"
        self.covers = 0
        self.execs = []
        self.notes = []

    # ------------------------------------------------------------ obligations
    noarith = False
    soft = False  # a failed obligation alone is no violation: the replay decides

    @contextlib.contextmanager
    def replay_decides(self):
        old, self.soft = self.soft, True
        try:
            yield
        finally:
            self.soft = old

    def record(self, name, res, where="", note=""):
        o = {"name": f"{self.sect}: {name}", "status": res.status, "backend": res.backend, "where": where}
        if not res.ok:
            o["why"] = res.why
            o["model"] = (res.model or "")[:6000]
            o["definite"] = self.definite(res) and not self.soft
        self.obls.append(o)
        return res.ok

    def definite(self, res):
        if res.status != "refuted":
            return False
        txt = (res.model or "") + (res.why or "")
        return "HAVOC" not in txt and "narrow" not in txt  # narrow: what a short integer keeps of a value is only known while it fits

    def prove(self, name, goal, hyps=(), where=""):
        return self.record(name, self.prover.prove(goal, list(hyps)), where)

    def eq(self, name, got, want, hyps=(), where=""):
        r = self.prover.prove_eq(got, want, list(hyps))
        if not r.ok and not r.why:
            r.why = f"got {tm.show(got)[:500]}, expected {tm.show(want)[:500]}"
        elif not r.ok:
            r.why += f" | got {tm.show(got)[:500]} | expected {tm.show(want)[:500]}"
        return self.record(name, r, where)

    def fact(self, name, ok, why="", where=""):
        """an obligation decided by evaluation (structure of the extracted code)"""
        return self.record(name, Result("proved" if ok else "refuted", "evaluation", "", why), where)

    def undecided(self, name, why):
        self.obls.append({"name": f"{self.sect}: {name}", "status": "unknown", "backend": "", "why": why, "where": "", "definite": False})

    def cover(self, name, hyps):
        """vacuity guard: the hypotheses must not be contradictory"""
        r, be, _ = self.prover.check(list(hyps), timeout=4000, cvc5=False)
        self.covers += 1
        if r == "unsat":
            self.undecided(f"cover {name}", "the preconditions are contradictory: the proof would be vacuous")

    @contextlib.contextmanager
    def section(self, name):
        old, self.sect = self.sect, name
        n = len(self.obls)
        try:
            yield
            if len(self.obls) == n:
                self.undecided("vacuous", "no obligation was generated")
        except (Unsupported, Missing, ir.ExtractError, Dead) as e:
            self.undecided("outside the verifier's reach", f"{type(e).__name__}: {e}")
        except RecursionError as e:
            self.undecided("outside the verifier's reach", "recursion limit")
        except Exception as e:  # an engine gap never becomes a verdict
            self.undecided("engine error", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
        finally:
            self.sect = old

    def assume_text(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    # ------------------------------------------------------------ execution
    def executor(self):
        ex = Exec(self.prog, self.prover)
        self.execs.append(ex)
        return ex

    def rec(self, n):
        return {"c": "rec", "n": n, "repo": True}

    def fn(self, q, nparams=None):
        l = self.prog.byname.get(q, [])
        if nparams is not None:
            l = [f for f in l if len(f["params"]) == nparams]
        if len(l) != 1:
            raise Missing(f"function {q} not found" if not l else f"function {q} is ambiguous")
        return l[0]

    def run(self, q, this=None, nparams=None, ex=None, st=None, args=None):
        """execute the real body of q from an arbitrary state"""
        ex = ex or self.executor()
        st = st or State()
        f = self.fn(q, nparams)
        self.funcs.add(q)
        th = LV("this", (), (), self.rec(this)) if isinstance(this, str) else this
        if args is None:
            args = []
            for p in f["params"]:
                args.append(LV("p:" + (p["n"] or "_"), (), (), noref(f["types"][p["t"]])))
        v = ex.call_fn(f, th, args, st)
        return ex, st, v

    def params(self, q, nparams=None):
        f = self.fn(q, nparams)
        return [LV("p:" + (p["n"] or "_"), (), (), noref(f["types"][p["t"]])) for p in f["params"]]

    def written(self, ex, st):
        """cells of pre-existing objects whose content changed: key -> (initial, final)"""
        out = {}
        for k, c in st.cells.items():
            if k[0].startswith("#") or ex.rootno(k[0]) != 0:
                continue
            i = ex.init_cell(k[0], k[1], c.sort)
            if i is not c:
                out[k] = (i, c)
        return out

    def frame(self, name, ex, st, allowed, hyps=(), where=""):
        """nothing outside `allowed` (predicate on (root, path)) changes"""
        ok = True
        w = self.written(ex, st)
        n = 0
        for k, (i, c) in sorted(w.items(), key=lambda x: str(x[0])):
            if allowed(k):
                continue
            n += 1
            kk = [tm.fresh("x", "I") for _ in range(k[1].count("[]"))]
            m = {arg(q): a for q, a in enumerate(kk)}
            ok &= self.eq(f"{name}: {k[0]}.{'.'.join(k[1])} unchanged", tm.subst(c, m), tm.subst(i, m), hyps, where)
        if n == 0:
            self.record(f"{name}: no other location is written", Result("proved", "frame-fixpoint"), where)
        return ok

    def safety(self, ex, hyps=(), kinds=None, extra=None, name="safety"):
        """discharge the obligations raised by the execution (division, bounds, null, ...)"""
        seen = set()
        if not self.noarith:
            self.arithmetic(ex, hyps)
        for o in ex.obls:
            if (kinds and o.kind not in kinds) or o.kind in ARITH:
                continue
            hy = list(hyps) + list(o.hyps)
            if extra:
                hy += extra(o)
            key = (o.kind, o.goal, tuple(o.hyps))
            if key in seen:
                continue
            seen.add(key)
            self.record(f"{name}: {o.kind} at {o.where}", self.prover.prove(o.goal, hy), o.where)

    def arithmetic(self, ex, hyps=()):
        """32-bit integers stay in range and unsigned values do not wrap, wherever the executed code computes with them"""
        done = ex.__dict__.setdefault("arithdone", set())
        with self.replay_decides():
            for o in ex.obls:
                key = (o.kind, o.goal, tuple(o.hyps))
                if o.kind not in ARITH or key in done:
                    continue
                done.add(key)
                hy = list(o.hyps) + list(hyps) + getattr(ex, "sizes", [])
                big = {x for h in [o.goal] + hy for x in tm.subterms(h) if x.op == "app" and x.args[0].endswith(("#size", "#rows"))}
                hy += [tm.le(x, num(MAXELEM)) for x in big]
                self.record(f"{o.note} at {o.where}", self.prover.prove(o.goal, hy), o.where)

    def remaining_arithmetic(self):
        with self.section("machine integers"):
            for ex in self.execs:
                self.arithmetic(ex)
            self.fact("every integer computation of the executed functions is accounted for", True)
        self.assume_text("containers (particles, neighbours, triplets, rows of a file) hold fewer than 2^28 elements")

    # ------------------------------------------------------------ reporting
    def summary(self):
        n = len(self.obls)
        d = sum(1 for o in self.obls if o["status"] == "proved")
        return n, d


TRUSTED = [
    "mpsv verification-condition generator (symbolic execution, loop rule, ring normal form) and the clang-based extractor",
    "Z3 / cvc5",
    "double arithmetic treated as exact real arithmetic (conversions to float are not: they are unknown functions)",
    "integers are mathematical; that 32-bit values stay in range and unsigned ones do not wrap is an obligation (section 'machine integers') except where an assumption says otherwise",
    "models of the C++ library functions listed under library_contracts (assumed contracts)",
]


def backends(c):
    d = {}
    for o in c.obls:
        if o["status"] == "proved":
            for b in (o["backend"] or "simplifier").split("+"):
                d[b] = d.get(b, 0) + 1
    return d


def main(argv):
    sys.setrecursionlimit(100000)
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER") or (argv[1] if len(argv) > 1 else "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(f"mpsv.checks.{pid.lower()}")
    c = Check(pid, tier, seed)
    c.noarith = not getattr(mod, "ARITHMETIC", True)
    try:
        c.prog = ir.program()
        mod.verify(c)
        if not c.noarith:
            c.remaining_arithmetic()
    except ir.ExtractError as e:
        c.undecided("extraction", str(e)[-1500:])
    n, d = c.summary()
    bad = [o for o in c.obls if o["status"] != "proved"]
    known = load_known(pid)
    harness = getattr(mod, "HARNESS", None)
    hres = None
    always = getattr(mod, "HARNESS_ALWAYS", False)
    if harness and (bad or tier == "thorough" or always):
        from . import replay
        hres = replay.run(harness, pid, tier, seed, mod)
    for ex in c.execs:
        c.funcs |= set(ex.inlined)
        c.lib |= set(ex.assumed)
    verdict, line, replay_path = 0, None, None
    if hres and hres["status"] == "fail":
        verdict = 1
        replay_path = write_replay(pid, c, bad, hres)
        line = f"VIOLATION property={pid} replay={replay_path}"
    elif any(o.get("definite") for o in bad):
        verdict = 1
        replay_path = write_replay(pid, c, bad, hres)
        line = f"VIOLATION property={pid} replay={replay_path} no-failing-input-found"
    cov = {
        "obligations": n,
        "discharged": d,
        "checker_cmd": f"./check {pid} {tier}",
        "trusted_base": TRUSTED + [f"library contract: {x}" for x in sorted(c.lib)],
        "functions_under_contract": sorted(c.funcs),
        "obligations_by_backend": backends(c),
        "solver_queries": c.prover.queries,
        "solver_time_s": round(c.prover.solver_time, 3),
        "vacuity_guards": c.covers,
        "undischarged": [{k: str(v)[:600] for k, v in o.items()} for o in bad][:40],
        "bounded_standins": c.bounded + ([hres["info"]] if hres and hres.get("info") else []),
        "samples": [o["name"] for o in c.obls[:12]],
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": cov, "assumptions": c.assumptions + c.notes, "wall_s": round(time.time() - c.t0, 2),
        "violations": 1 if verdict else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k}")
    print(f"{pid}: {d}/{n} obligations discharged, {len(c.funcs)} functions, {round(time.time() - c.t0, 1)} s")
    for o in bad[:12]:
        print(f"  undischarged [{o['status']}] {o['name']}: {str(o.get('why', ''))[:700]}")
    if hres:
        print(f"  bounded stand-in / replay harness {harness}: {hres['status']} {hres.get('text', '')[:1500]}")
    if bad and not line:
        print("  not decided deductively; the bounded stand-in found no violation" if hres and hres["status"] == "pass" else "  not decided")
    if line:
        print(line)
    sys.stdout.flush()
    return verdict


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f"finding: property={pid} "):
                out.append(l.split(" ", 2)[2])
    return out


def write_replay(pid, c, bad, hres):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"replay-{pid}.json")
    with open(p, "w") as f:
        json.dump({
            "property": pid,
            "failed_obligations": bad,
            "replay": hres,
            "repo": ir.ROOT,
        }, f, indent=1, default=str)
    return p
