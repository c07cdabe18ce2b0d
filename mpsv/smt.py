"""Obligation discharge: ring normal form + case splitting + z3, with cvc5 as second back end."""
import os
import subprocess
import time
from fractions import Fraction

import z3

from . import terms as tm
from .terms import T, TRUE, FALSE, num

CVC5 = "cvc5"
SIZES = ("#size", "#rows", "#cols")


class Result:
    def __init__(self, status, backend="", model=None, why=""):
        self.status = status  # proved | refuted | unknown
        self.backend = backend
        self.model = model
        self.why = why

    @property
    def ok(self):
        return self.status == "proved"

    def __repr__(self):
        return f"{self.status}({self.backend}{' ' + self.why if self.why else ''})"


class Trans:
    """term -> z3"""

    def __init__(self):
        self.cache = {}
        self.side = []  # axioms about auxiliary symbols (ground)
        self.sorts = {}
        self.funs = {}
        self.strs = {}
        self.invs = {}
        self.apps = []
        self.bvs = {}
        self.ground = []
        self.quant = set()

    def sort(self, s):
        if s == "I":
            return z3.IntSort()
        if s == "R":
            return z3.RealSort()
        if s == "B":
            return z3.BoolSort()
        if s not in self.sorts:
            self.sorts[s] = z3.DeclareSort("Srt_" + s)
        return self.sorts[s]

    def coerce(self, e, s):
        if s == "R" and e.sort() == z3.IntSort():
            return z3.ToReal(e) if not z3.is_int_value(e) else z3.RealVal(e.as_long())
        return e

    def fun(self, name, argsorts, sort):
        key = (name, tuple(argsorts), sort)
        if key not in self.funs:
            n = f"{name}" if not any(k[0] == name for k in self.funs) else f"{name}!{len(self.funs)}"
            if argsorts:
                self.funs[key] = z3.Function(n, *[self.sort(s) for s in argsorts], self.sort(sort))
            else:
                self.funs[key] = z3.Const(n, self.sort(sort))
        return self.funs[key]

    def numval(self, fr, real):
        if real or fr.denominator != 1:
            return z3.RealVal(str(fr))
        return z3.IntVal(int(fr))

    def opaque(self, t, sort=None):
        """a term the solver sees as an uninterpreted symbol, applied to its free bound variables"""
        fvs = sorted(t.fv, key=lambda v: v.args[0])
        f = self.fun(f"{t.op}@{t.id}", [v.sort for v in fvs], sort or t.sort)
        return f(*[self.go(v) for v in fvs]) if fvs else f

    def inverse(self, base):
        """1/x as an uninterpreted value with its defining axiom (1/0 := 0)"""
        b = self.coerce(self.go(base), "R")
        if base.fv:
            self.quant.add("INV")
            return self.fun("INV", ["R"], "R")(b)
        if base not in self.invs:
            y = z3.Real(f"inv@{base.id}")
            self.invs[base] = y
            self.ground.append(("INV", b, y))
            self.side.append(z3.If(b == 0, y == 0, b * y == 1))
            # sign information helps the solver
            self.side.append(z3.Implies(b > 0, y > 0))
            self.side.append(z3.Implies(b < 0, y < 0))
        return self.invs[base]

    def go(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self._go(t)
            self.cache[t] = r
        return r

    def _go(self, t):
        op = t.op
        if op == "num":
            return self.numval(t.args[0], False)
        if op == "tt":
            return z3.BoolVal(True)
        if op == "ff":
            return z3.BoolVal(False)
        if op == "bv":
            return z3.Const(t.args[0], self.sort(t.sort))
        if op == "str":
            if t.args[0] not in self.strs:
                self.strs[t.args[0]] = z3.Const(f"str!{len(self.strs)}", self.sort("S"))
            return self.strs[t.args[0]]
        if op == "poly":
            real = t.sort == "R"
            acc = None
            for m, c in t.args:
                fs = []
                for a, e in m:
                    if e > 0:
                        x = self.go(a)
                        x = self.coerce(x, "R") if real else x
                        fs += [x] * e
                    else:
                        x = self.inverse(a.args[0] if a.op == "P" else a)
                        fs += [x] * (-e)
                if c != 1 or not fs:
                    fs.insert(0, self.numval(c, real))
                p = fs[0]
                for f in fs[1:]:
                    p = p * f
                acc = p if acc is None else acc + p
            return acc
        if op == "P":
            return self.go(t.args[0])
        if op == "app":
            args = [a for a in t.args[1:]]
            if isinstance(t.args[0], str) and t.args[0].startswith("narrow") and len(args) == 1:
                w = int(t.args[0][6:-1])
                h = 2 ** (w - 1) if t.args[0][-1] == "s" else 0
                return (self.go(args[0]) + h) % 2**w - h
            f = self.fun(t.args[0], [a.sort for a in args], t.sort)
            return f(*[self.go(a) for a in args]) if args else f
        if op == "sqrt":
            x = self.coerce(self.go(t.args[0]), "R")
            if t.fv:
                self.quant.add("SQRT")
                return self.fun("SQRT", ["R"], "R")(x)
            y = z3.Real(f"sqrt@{t.id}")
            self.ground.append(("SQRT", x, y))
            self.side.append(y >= 0)
            self.side.append(z3.Implies(x >= 0, y * y == x))
            self.side.append(z3.Implies(x > 0, y > 0))
            return y
        if op == "trunc":
            x = self.coerce(self.go(t.args[0]), "R")
            if t.fv:
                return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            y = z3.Int(f"trunc@{t.id}")
            self.side.append(z3.If(x >= 0, z3.And(z3.ToReal(y) <= x, x < z3.ToReal(y) + 1), z3.And(z3.ToReal(y) >= x, x > z3.ToReal(y) - 1)))
            return y
        if op in ("idiv", "imod"):
            a, b = self.go(t.args[0]), self.go(t.args[1])
            absq = z3.If(a >= 0, a, -a) / z3.If(b >= 0, b, -b)
            q = z3.If((a >= 0) == (b >= 0), absq, -absq)
            return q if op == "idiv" else a - b * q
        if op == "not":
            return z3.Not(self.go(t.args[0]))
        if op == "and":
            return z3.And(*[self.go(a) for a in t.args])
        if op == "or":
            return z3.Or(*[self.go(a) for a in t.args])
        if op == "lt0":
            return self.go(t.args[0]) < 0
        if op == "eq0":
            return self.go(t.args[0]) == 0
        if op == "eq":
            return self.go(t.args[0]) == self.go(t.args[1])
        if op == "ite":
            a, b = self.go(t.args[1]), self.go(t.args[2])
            if a.sort() != b.sort():
                a, b = self.coerce(a, "R"), self.coerce(b, "R")
            return z3.If(self.go(t.args[0]), a, b)
        if op in ("all", "ex"):
            (v,), lo, hi, body = t.args
            x = self.go(v)
            b = self.go(body)
            rng = []
            if lo is not None:
                rng = [self.go(lo) <= x, x < self.go(hi)]
            if op == "all":
                return z3.ForAll([x], z3.Implies(z3.And(*rng), b) if rng else b)
            return z3.Exists([x], z3.And(*rng, b))
        if op == "first":
            y = self.opaque(t, "I")
            if not t.fv:
                (v,), lo, hi, cond = t.args
                l, h = self.go(lo), self.go(hi)
                self.side.append(z3.And(y >= l, z3.Or(y <= h, h < l)))
                c = tm.subst(cond, {v: const_of(y, self)})
                self.side.append(z3.Implies(z3.And(l <= y, y < h), self.go(c)))
            return y
        return self.opaque(t)


_consts = {}


def const_of(zexpr, tr):
    """a logical constant standing for an existing z3 constant"""
    n = str(zexpr)
    c = tm.const("z!" + n, "I")
    tr.cache[c] = zexpr
    return c


class Prover:
    def __init__(self, axioms=None, timeout_ms=8000, deadline=None):
        self.axioms = {} if axioms is None else axioms
        self.timeout = timeout_ms
        self.solver_time = 0.0
        self.queries = 0
        self.backends = {}
        self.deadline = deadline
        self._cache = {}

    # ------------------------------------------------------------ plain query
    def _opaque_instances(self, ts):
        """quantified hypotheses over terms the solver sees as opaque (folds, sums), at the ground indices of the query"""
        qs = [t for t in ts if t.op == "all" and tm.contains(t.args[3], lambda x: x.op in ("fold", "sum", "first") and x.fv)]
        if not qs:
            return []
        ground = {x for t in ts for x in tm.subterms(t) if x.op == "app" and x.sort == "I" and not x.fv and not str(x.args[0]).endswith(SIZES)}
        ground = sorted((x for x in ground if len(x.args) == 1), key=lambda x: x.id) + sorted((x for x in ground if len(x.args) > 1), key=lambda x: x.id)
        out = []
        for rnd in range(2):
            new = []
            for q in qs:
                (v,), lo, hi, body = q.args
                for g in ground[:6]:
                    if g.sort == v.sort:
                        b = tm.subst(body, {v: g})
                        rng = [tm.le(lo, g), tm.lt(g, hi)] if lo is not None else []
                        new.append(tm.implies(tm.and_(*rng), b))
            out += new
            qs = [t for t in new if t.op == "all"]
        return out

    def _instances(self, ts, rounds=3):
        out = self._opaque_instances(ts)
        seen = set()
        work = list(ts) + out
        for _ in range(rounds):
            new = []
            for t in work:
                for x in tm.subterms(t):
                    if x in seen:
                        continue
                    seen.add(x)
                    if x.op == "app" and x.args[0] in self.axioms and not x.fv:
                        a = self.axioms[x.args[0]](*x.args[1:])
                        for b in a if isinstance(a, (list, tuple)) else [a]:
                            if b is not TRUE:
                                new.append(b)
                    ax = self.axioms.get("op:" + x.op)
                    if ax and not x.fv:
                        a = ax(x)
                        for b in a if isinstance(a, (list, tuple)) else [a]:
                            if b is not TRUE:
                                new.append(b)
            if not new:
                break
            out += new
            work = new
        return out

    def _sizes(self, ts):
        """container sizes and chain lengths are never negative"""
        out = []
        for t in ts:
            for x in tm.subterms(t):
                if x.op == "app" and x.sort == "I" and not x.fv and isinstance(x.args[0], str) and (x.args[0].endswith(SIZES) or x.args[0] == "chlen"):
                    out.append(tm.ge(x, tm.ZERO))
        return out

    def check(self, fs, timeout=None, want_model=False, cvc5=True):
        """satisfiability of the conjunction fs -> 'unsat' | 'sat' | 'unknown', backend, model-text"""
        fs = [f for f in fs if f is not TRUE]
        if any(f is FALSE for f in fs):
            return "unsat", "simplifier", None
        key = (frozenset(fs), timeout, want_model)
        if key in self._cache:
            return self._cache[key]
        if self.deadline and time.time() > self.deadline:
            return "unknown", "budget", None
        t0 = time.time()
        tr = Trans()
        inst = self._instances(fs) + self._sizes(fs)
        s = z3.Solver()
        s.set("timeout", int(timeout or self.timeout))
        for f in fs + inst:
            s.add(tr.go(f))
        for f in tr.side:
            s.add(f)
        for f, x, y in tr.ground:  # the same function below a quantifier and outside
            if f in tr.quant:
                s.add(tr.fun(f, ["R"], "R")(x) == y)
        if len(tr.strs) > 1:
            s.add(z3.Distinct(*tr.strs.values()))
        self.queries += 1
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        res = str(r)
        backend = "z3"
        model = None
        if r == z3.sat:
            if want_model:
                try:
                    model = self.model_text(s.model(), tr)
                except z3.Z3Exception:
                    model = None
        elif r == z3.unknown and cvc5:
            r2 = self.cvc5(s.to_smt2(), (timeout or self.timeout) / 1000.0)
            if r2 in ("unsat", "sat"):
                res = r2
                backend = "cvc5"
        self.solver_time += time.time() - t0
        out = (res, backend, model)
        self._cache[key] = out
        return out

    def cvc5(self, smt2, tmo):
        txt = "(set-logic ALL)\n" + smt2
        try:
            p = subprocess.run(
                [CVC5, "--lang=smt2", f"--tlimit={int(tmo * 1000)}", "--nl-cov", "-"],
                input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=tmo + 5,
            )
            o = p.stdout.decode().strip().splitlines()
            return o[0] if o else "unknown"
        except (subprocess.TimeoutExpired, OSError):
            return "unknown"

    def model_text(self, m, tr):
        out = []
        for d in sorted(m.decls(), key=lambda d: d.name())[:120]:
            try:
                out.append(f"{d.name()} = {m[d]}")
            except z3.Z3Exception:
                pass
        return "\n".join(out)

    def feasible(self, hyps, timeout=2500):
        # quantified hypotheses rarely decide a branch and cost the whole time limit when they do not
        hyps = list(hyps)
        flat = [h for h in hyps if not tm.contains(h, lambda x: x.op in ("all", "ex"))]
        if len(flat) < len(hyps):
            r, _, _ = self.check(flat, timeout=timeout, cvc5=False)
            if r == "unsat":
                return False
            timeout = 300
        r, _, _ = self.check(hyps, timeout=timeout, cvc5=False)
        return r != "unsat"

    # ------------------------------------------------------------ goals
    def prove(self, goal, hyps=(), depth=0):
        hyps = [h for h in hyps if h is not TRUE]
        if goal is TRUE:
            return Result("proved", "ring-normal-form")
        if depth == 0:
            r = self.prove(goal, hyps, 1)
            if r.ok:
                return r
            goal2, hyps2 = self.without_roots(goal, hyps)
            return r if goal2 is goal and all(x is y for x, y in zip(hyps, hyps2)) else self.prove(goal2, hyps2, 1)
        if any(h is FALSE for h in hyps):
            return Result("proved", "simplifier")
        if goal.op == "not" and goal.args[0].op == "eq0" and goal.args[0].args[0].op == "poly":
            p = tm._monic(goal.args[0].args[0])[0]  # strictly positive or negative by hypothesis
            if any(h.op == "lt0" and tm._monic(h.args[0])[0] is p for h in hyps):
                return Result("proved", "hypothesis")
        if goal.op == "and":
            be = set()
            for g in goal.args:
                r = self.prove(g, hyps, depth)
                if not r.ok:
                    return r
                be.update(r.backend.split("+"))
            return Result("proved", "+".join(sorted(be)))
        if goal.op == "all":
            (v,), lo, hi, body = goal.args
            k = tm.fresh("sk", v.sort)
            hs = list(hyps)
            if lo is not None:
                hs += [tm.le(lo, k), tm.lt(k, hi)]
            return self.prove(tm.subst(body, {v: k}), hs, depth)
        if goal.op == "or":
            # use the simple disjuncts as negated hypotheses, keep a binder/equality as goal
            cand = [g for g in goal.args if g.op in ("all", "eq0")] 
            if cand:
                g = cand[0]
                rest = [tm.not_(x) for x in goal.args if x is not g]
                return self.prove(g, hyps + rest, depth)
        if goal.op == "eq0":
            return self.prove_zero(goal.args[0], hyps, depth)
        if goal.op == "eq" and goal.args[0].sort == "X":
            return self.prove_stream(goal.args[0], goal.args[1], hyps)
        return self.prove_plain(goal, hyps)

    def prove_plain(self, goal, hyps):
        goal2, hyps2 = self.unify_binders([goal] + list(hyps), hyps)
        r, be, model = self.check(hyps2 + [tm.not_(goal2)], want_model=True)
        if r == "unsat":
            return Result("proved", be)
        if r == "sat":  # a model that chooses the value of a recursion freely refutes nothing
            return Result("unknown" if has_fold(goal2) else "refuted", be, model, "counter-model for: " + tm.show(goal)[:400])
        return Result("unknown", be, None, "no answer for: " + tm.show(goal)[:400])

    def prove_eq(self, a, b, hyps=()):
        if a is b:
            return Result("proved", "ring-normal-form")
        if a.sort == "B":
            r = self.prove_plain(tm.iff(a, b), list(hyps))
            return r
        if a.sort == "X":
            return self.prove_stream(a, b, list(hyps))
        if a.sort in ("I", "R"):
            d, hyps = self.without_roots(tm.sub(a, b), list(hyps))
            return self.prove_zero(d, hyps, 0)
        # opaque
        return self.prove_split_opaque(a, b, list(hyps))

    def without_roots(self, d, hyps):
        """roots of squares of positive quantities are those quantities"""
        roots = {x for t in [d] + hyps for x in tm.subterms(t) if x.op == "sqrt" and len(tm._poly_items(x.args[0])) == 1}
        if not roots:
            return d, hyps
        pos = set()
        for h in hyps:
            for g in (h.args if h.op == "and" else (h,)):
                if g.op == "lt0":
                    it = tm._poly_items(g.args[0])
                    if len(it) == 1 and it[0][1] < 0 and len(it[0][0]) == 1 and it[0][0][0][1] == 1:
                        pos.add(it[0][0][0][0])
        m = {x: r for x in roots for r in [tm.root_of_square(x, pos)] if r is not None}
        if not m:
            return d, hyps
        return tm.subst(d, m), [tm.subst(h, m) for h in hyps]

    def prove_split_opaque(self, a, b, hyps, depth=0):
        if a is b:
            return Result("proved", "ring-normal-form")
        c = self.pick_cond(a) or self.pick_cond(b)
        if c is not None and depth < 12:
            for val in (True, False):
                lit = c if val else tm.not_(c)
                if not self.feasible(hyps + [lit]):
                    continue
                r = self.prove_split_opaque(assume(a, c, val), assume(b, c, val), hyps + [lit], depth + 1)
                if not r.ok:
                    return r
            return Result("proved", "case-split")
        if a.op == b.op == "app" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
            for x, y in zip(a.args[1:], b.args[1:]):
                r = self.prove_eq(x, y, hyps)
                if not r.ok:
                    return r
            return Result("proved", "congruence")
        if a.op == "str" and b.op == "str":
            return Result("refuted", "strings", None, f"{tm.show(a)} != {tm.show(b)}")
        return self.prove_plain(tm.eq(a, b), hyps)

    def pick_cond(self, t):
        """an atomic condition of an ite occurring in t outside binders"""
        stack = [t]
        seen = set()
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "ite" or x.op == "site":
                c = x.args[0]
                while c.op in ("and", "or", "not", "ite"):
                    c = c.args[0]
                if not c.fv:
                    return c
            if x.op in tm.BINDERS:
                continue
            stack.extend(tm._kids(x))
        return None

    def prove_zero(self, d, hyps, depth, budget=None):
        """hyps |- d == 0"""
        if budget is None:
            budget = [400]
        if d is tm.ZERO:
            return Result("proved", "ring-normal-form")
        budget[0] -= 1
        if budget[0] < 0:
            return Result("unknown", "budget", None, "case-split budget")
        c = self.pick_cond(d)
        if c is not None:
            be = set()
            for val in (True, False):
                lit = c if val else tm.not_(c)
                hy = [assume(h, c, val) if has_fold(h) else h for h in hyps] + [lit]
                if not self.feasible(hy):
                    be.add("z3")
                    continue
                d2 = assume(d, c, val)
                r = self.prove_zero(d2, hy, depth + 1, budget)
                if not r.ok:
                    return r
                be.update(r.backend.split("+"))
            return Result("proved", "+".join(sorted(be)))
        # no conditions left outside binders
        sums = [x for x in tm.subterms(d) if x.op == "sum" and not x.fv]
        if sums:
            r = self.prove_sums(d, hyps, depth)
            if r is not None:
                return r
        d2, hyps2 = self.unify_binders([d] + list(hyps), hyps)
        if d2 is not d:
            return self.prove_zero(d2, hyps2, depth + 1, budget)
        if d.op == "num":
            # refuted unless the hypotheses are contradictory
            r, be, model = self.check(hyps, want_model=True)
            if r == "unsat":
                return Result("proved", be)
            return Result("refuted" if r == "sat" else "unknown", be, model, f"difference is the constant {tm.show(d)}")
        if self.boundary(d, hyps):
            return Result("proved", "ring-normal-form")
        r, be, model = self.check(hyps + [tm.not_(tm.eq(d, tm.ZERO))], want_model=True)
        if r == "unsat":
            return Result("proved", be)
        why = "difference not zero: " + tm.show(d)[:600]
        if r == "sat":
            return Result("refuted", be, model, why)
        return Result("unknown", be, None, why)

    def boundary(self, d, hyps):
        """neither p < 0 nor p > 0, and d is a multiple of p"""
        signs = [(h, True) if h.op == "lt0" else (h.args[0], False) for h in hyps if h.op == "lt0" or h.op == "not" and h.args[0].op == "lt0"]
        nested = [h for h in hyps if h.op == "not" and h.args[0].op == "lt0" and any(x.op == "ite" for x in tm.subterms(h))]
        for h in nested:  # the sign of a term whose own conditions were decided later
            g = h
            for q, val in signs:
                if q is not h.args[0] and not any(x.op == "ite" for x in tm.subterms(q)):
                    g = assume(g, q, val)
            if g is not h:
                hyps = hyps + [g]
        neg = [h.args[0].args[0] for h in hyps if h.op == "not" and h.args[0].op == "lt0"]
        zero = [h.args[0] for h in hyps if h.op == "eq0"] + [p for i, p in enumerate(neg) if p.op == "poly" and any(tm._monic(p)[0] is tm._monic(q)[0] and tm._monic(p)[1] * tm._monic(q)[1] < 0 for q in neg[:i])]
        return any(p.op == "poly" and tm.multiple(d, p) for p in zero)

    def prove_sums(self, d, hyps, depth):
        """d linear in sums: fuse sums over the same range and prove the fused summand zero"""
        groups = {}
        rest = tm.ZERO
        for m, c in tm._poly_items(d):
            ss = [(a, e) for a, e in m if a.op == "sum"]
            if any(x.op == "sum" for a, e in m if a.op != "sum" for x in tm.subterms(a)):
                ss = None
            if ss is None or len(ss) > 1 or (ss and ss[0][1] != 1):
                return None  # not linear
            if not ss:
                rest = tm.add(rest, tm._from_dict({m: c}))
                continue
            s = ss[0][0]
            coef = tm._from_dict({tuple((a, e) for a, e in m if a is not s): c})
            groups.setdefault((s.args[1], s.args[2]), []).append((coef, s))
        be = {"sum-congruence"}
        # ranges that are provably equal are fused
        keys = list(groups)
        for i in range(len(keys)):
            for j in range(i):
                if keys[i] in groups and keys[j] in groups and keys[i] is not keys[j]:
                    if self.prove(tm.and_(tm.eq(keys[i][0], keys[j][0]), tm.eq(keys[i][1], keys[j][1])), hyps, depth + 1).ok:
                        groups[keys[j]] += groups.pop(keys[i])
        last = None
        for (lo, hi), lst in groups.items():
            k = tm.fresh("k", "I")
            tot = tm.ZERO
            for coef, s in lst:
                tot = tm.add(tot, tm.mul(coef, tm.subst(s.args[3], {s.args[0][0]: k})))
            r = self.prove_zero(tot, hyps + [tm.le(lo, k), tm.lt(k, hi)], depth + 1)
            if not r.ok:
                last = r
                break
            be.update(r.backend.split("+"))
        if last is not None:
            return Result(last.status if last.status == "refuted" else "unknown", last.backend, last.model, "summand differs: " + last.why)
        r = self.prove_zero(rest, hyps, depth + 1)
        if not r.ok:
            return r
        be.update(r.backend.split("+"))
        return Result("proved", "+".join(sorted(be)))

    # ------------------------------------------------------------ congruence of binder atoms
    def unify_binders(self, ts, hyps):
        """replace provably equal binder atoms by one representative; ts[0] is the goal"""
        atoms = []
        for t in ts[:1]:
            for x in tm.subterms(t):
                if x.op in ("sum", "fold", "first", "all", "ex", "cnt") and not x.fv:
                    atoms.append(x)
        if len(atoms) < 2:
            return ts[0], list(ts[1:])
        atoms.sort(key=lambda t: (t.lvl, t.id))
        rep = {}
        reps = []
        for x in atoms:
            for y in reps:
                if y.op != x.op or y.sort != x.sort:
                    continue
                if self.binder_eq(x, y, hyps):
                    rep[x] = y
                    break
            else:
                reps.append(x)
        if not rep:
            return ts[0], list(ts[1:])
        f = lambda t: tm.subst(t, rep)
        return f(ts[0]), [f(h) for h in ts[1:]]

    def binder_eq(self, x, y, hyps):
        key = ("beq", x, y, frozenset(hyps))
        if key in self._cache:
            return self._cache[key]
        self._cache[key] = False
        ok = self._binder_eq(x, y, hyps)
        self._cache[key] = ok
        return ok

    def _binder_eq(self, x, y, hyps):
        for i in (1, 2):
            a, b = x.args[i], y.args[i]
            if a is None or b is None:
                if a is not b:
                    return False
                continue
            if a is not b and not self.prove_eq(a, b, hyps).ok:
                return False
        k = tm.fresh("k", x.args[0][-1].sort)
        hs = list(hyps)
        if x.args[1] is not None:
            hs += [tm.le(x.args[1], k), tm.lt(k, x.args[2])]
        if x.op == "fold":
            if x.args[3] is not y.args[3] and not self.prove_eq(x.args[3], y.args[3], hyps).ok:
                return False
            acc = tm.fresh("acc", x.args[0][0].sort)
            sx = tm.subst(x.args[4], {x.args[0][0]: acc, x.args[0][1]: k})
            sy = tm.subst(y.args[4], {y.args[0][0]: acc, y.args[0][1]: k})
            return self.prove_eq(sx, sy, hs).ok
        bx = tm.subst(x.args[-1], {x.args[0][0]: k})
        by = tm.subst(y.args[-1], {y.args[0][0]: k})
        return self.prove_eq(bx, by, hs).ok

    # ------------------------------------------------------------ streams
    def prove_stream(self, a, b, hyps, depth=0):
        if a is b:
            return Result("proved", "ring-normal-form")
        c = self.pick_cond_stream(a) or self.pick_cond_stream(b)
        if c is not None and depth < 14:
            for val in (True, False):
                lit = c if val else tm.not_(c)
                if not self.feasible(hyps + [lit]):
                    continue
                r = self.prove_stream(assume(a, c, val), assume(b, c, val), hyps + [lit], depth + 1)
                if not r.ok:
                    return r
            return Result("proved", "case-split")
        A, B = list(tm.cat_items(a)), list(tm.cat_items(b))
        n = min(len(A), len(B))
        for i in range(n):
            x, y = A[i], B[i]
            r = self.stream_item_eq(x, y, hyps, depth)
            if not r.ok:
                return r
        if len(A) != len(B):
            # trailing loops over a provably empty range produce nothing
            restl = A[n:] or B[n:]
            for x in restl:
                if x.op == "sfor" and self.prove(tm.le(x.args[2], x.args[1]), hyps).ok:
                    continue
                r, be, model = self.check(hyps, want_model=True)
                st = "refuted" if r == "sat" else ("proved" if r == "unsat" else "unknown")
                return Result(st, "stream", model, f"{len(A)} items instead of {len(B)}; first extra: {tm.show(restl[0])[:200]}")
        return Result("proved", "stream-congruence")

    def pick_cond_stream(self, t):
        for x in tm.cat_items(t):
            if x.op == "site":
                c = x.args[0]
                while c.op in ("and", "or", "not", "ite"):
                    c = c.args[0]
                return c
        return None

    def stream_item_eq(self, x, y, hyps, depth):
        if x is y:
            return Result("proved", "ring-normal-form")
        if x.op == "item" and y.op == "item" and x.args[0] == y.args[0] and len(x.args) == len(y.args):
            for p, q in zip(x.args[1:], y.args[1:]):
                if p is q:
                    continue
                if not isinstance(p, T) or not isinstance(q, T):
                    return Result("refuted", "stream", None, f"item {p} instead of {q}")
                r = self.prove_eq(p, q, hyps)
                if not r.ok:
                    r.why = f"stream item differs: {tm.show(x)[:160]} vs {tm.show(y)[:160]}: {r.why}"
                    return r
            return Result("proved", "congruence")
        if x.op == "sfor" and y.op == "sfor":
            r = self.prove(tm.and_(tm.eq(x.args[1], y.args[1]), tm.eq(x.args[2], y.args[2])), hyps)
            if not r.ok:
                r.why = "loop range differs: " + r.why
                return r
            k = tm.fresh("k", "I")
            return self.prove_stream(
                tm.subst(x.args[3], {x.args[0][0]: k}), tm.subst(y.args[3], {y.args[0][0]: k}),
                hyps + [tm.le(x.args[1], k), tm.lt(k, x.args[2])], depth + 1,
            )
        r, be, model = self.check(hyps, want_model=True)
        st = "refuted" if r == "sat" else ("proved" if r == "unsat" else "unknown")
        return Result(st, "stream", model, f"different output: {tm.show(x)[:200]} instead of {tm.show(y)[:200]}")


_fold = {}


def has_fold(t):
    r = _fold.get(t)
    if r is None:
        r = _fold[t] = any(x.op == "fold" for x in tm.subterms(t))
    return r


def assume(t, c, val):
    """t with the atomic condition c replaced by its truth value (and simple equalities substituted)"""
    n = tm.not_(c)
    m = {c: TRUE if val else FALSE}
    if n.op != "not":
        m[n] = FALSE if val else TRUE
    t = tm.subst(t, m)
    e = c if val else n
    if e.op == "eq0":
        it = tm._poly_items(e.args[0])
        # atom + const == 0
        if len(it) <= 2:
            at = [(m, k) for m, k in it if m != ()]
            cs = [k for m, k in it if m == ()]
            if len(at) == 1 and len(at[0][0]) == 1 and at[0][0][0][1] == 1:
                v = -(cs[0] if cs else Fraction(0)) / at[0][1]
                a = at[0][0][0][0]
                if a.op in ("app",):
                    t = tm.subst(t, {a: num(v)})
    if e.op == "eq":
        a, b = e.args
        if a.op == "app" and b.op == "str":
            t = tm.subst(t, {a: b})
        elif b.op == "app" and a.op == "str":
            t = tm.subst(t, {b: a})
    return t
