"""Randomised self-test of the term algebra: every smart constructor, substitution and simplification must preserve the
value of a term. Values are exact rationals; integers are small; every ground application is a table lookup.
usage: python3-vt tools/selftest_terms.py [seconds] [seed] [prover]"""
import random
import sys
import time
from fractions import Fraction

sys.path.insert(0, __file__.rsplit("/", 2)[0])
sys.setrecursionlimit(20000)
from mpsv import terms as tm, smt  # noqa: E402


class Undef(Exception):
    pass


class Env:
    def __init__(self, seed):
        self.seed = seed
        self.tab = {}

    def app(self, name, args, sort):
        key = (name, args)
        if key not in self.tab:
            r = random.Random(f"{self.seed}{key}")
            self.tab[key] = r.randint(-3, 4) if sort == "I" else bool(r.getrandbits(1)) if sort == "B" else Fraction(r.randint(-6, 6), r.choice((1, 1, 2, 3)))
        return self.tab[key]


def ev(t, env, b):
    op = t.op
    a = t.args
    if op == "num":
        return a[0]
    if op == "tt":
        return True
    if op == "ff":
        return False
    if op == "bv":
        return b[t]
    if op == "P":
        return ev(a[0], env, b)
    if op == "poly":
        s = Fraction(0)
        for mono, c in a:
            p = Fraction(c)
            for x, e in mono:
                v = ev(x, env, b)
                if e < 0 and v == 0:
                    raise Undef
                p *= Fraction(v) ** e
            s += p
        return s
    if op == "app":
        return env.app(a[0], tuple(ev(x, env, b) for x in a[1:]), t.sort)
    if op == "not":
        return not ev(a[0], env, b)
    if op == "and":
        return all([ev(x, env, b) for x in a])
    if op == "or":
        return any([ev(x, env, b) for x in a])
    if op == "lt0":
        return ev(a[0], env, b) < 0
    if op == "eq0":
        return ev(a[0], env, b) == 0
    if op == "eq":
        return ev(a[0], env, b) == ev(a[1], env, b)
    if op == "ite":
        return ev(a[1], env, b) if ev(a[0], env, b) else ev(a[2], env, b)
    if op in ("idiv", "imod"):
        x, y = int(ev(a[0], env, b)), int(ev(a[1], env, b))
        if y == 0:
            raise Undef
        q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
        return Fraction(q if op == "idiv" else x - q * y)
    if op == "trunc":
        return Fraction(int(ev(a[0], env, b)))
    if op in ("sum", "all", "ex", "first", "fold"):
        lo, hi = int(ev(a[1], env, b)), int(ev(a[2], env, b))
        if op == "fold":
            acc = ev(a[3], env, b)
            for k in range(lo, hi):
                acc = ev(a[4], env, {**b, a[0][0]: acc, a[0][1]: Fraction(k)})
            return acc
        vals = [ev(a[3], env, {**b, a[0][0]: Fraction(k)}) for k in range(lo, hi)]
        if op == "sum":
            return sum(vals, Fraction(0))
        if op == "all":
            return all(vals)
        if op == "ex":
            return any(vals)
        return Fraction(next((lo + i for i, v in enumerate(vals) if v), max(hi, lo) if hi >= lo else hi))
    if op == "str":
        return a[0]
    raise AssertionError("no evaluation rule for " + op)


class Gen:
    """random terms, built twice: through the smart constructors (what is tested) and as a closure (the meaning)"""

    def __init__(self, r):
        self.r = r
        self.n = 0

    def const(self, sort, scope, d):
        r = self.r
        vs = [v for v in scope if v.sort == sort]
        k = r.random()
        if vs and k < 0.55:
            v = r.choice(vs)
            return v, lambda e, b: b[v]
        if sort == "B":
            return (tm.TRUE, lambda e, b: True) if k < 0.7 else (tm.FALSE, lambda e, b: False) if k < 0.8 else self.appl(sort, scope, d)
        if k < 0.75:
            q = Fraction(r.randint(-2, 3)) if sort == "I" else Fraction(r.randint(-4, 5), r.choice((1, 1, 2)))
            return tm.num(q), lambda e, b: q
        return self.appl(sort, scope, d)

    def appl(self, sort, scope, d):
        n = self.r.choice("fgh") + sort
        ar = 0 if d <= 0 else self.r.choice((0, 1, 2))
        n += str(ar)
        xs = [self.term("I", scope, d - 1) for _ in range(ar)]
        return tm.app(n, tuple(x[0] for x in xs), sort), lambda e, b: e.app(n, tuple(x[1](e, b) for x in xs), sort)

    def var(self, sort):
        self.n += 1
        # names that collide with canonical ones on purpose
        nm = self.r.choice([f"@v{self.n}", f"${self.r.randint(0, 3)}", "@k"])
        if sort != "I":
            nm = f"@a{self.n}"
        return tm.bv(nm, sort)

    def term(self, sort, scope, d):
        r = self.r
        if d <= 0 or r.random() < 0.12:
            return self.const(sort, scope, 0)
        T = lambda s, dd=d - 1, sc=scope: self.term(s, sc, dd)
        if sort == "B":
            k = r.randrange(9)
            if k == 0:
                x = T("B")
                return tm.not_(x[0]), lambda e, b: not x[1](e, b)
            if k in (1, 2):
                xs = [T("B") for _ in range(r.choice((2, 3)))]
                f = all if k == 1 else any
                return (tm.and_ if k == 1 else tm.or_)(*[x[0] for x in xs]), lambda e, b: f([x[1](e, b) for x in xs])
            if k in (3, 4):
                s = r.choice("IR")
                x, y = T(s), T(s)
                return tm.lt(x[0], y[0]), lambda e, b: x[1](e, b) < y[1](e, b)
            if k == 5:
                s = r.choice("IR")
                x, y = T(s), T(s)
                return tm.eq(x[0], y[0]), lambda e, b: x[1](e, b) == y[1](e, b)
            if k == 6:
                c, x, y = T("B"), T("B"), T("B")
                return tm.ite(c[0], x[0], y[0]), lambda e, b: x[1](e, b) if c[1](e, b) else y[1](e, b)
            if k == 7:
                return self.appl("B", scope, d)
            v = self.var("I")
            lo, hi = T("I"), T("I")
            x = self.term("B", [w for w in scope if w is not v] + [v], d - 1)
            u = r.random() < 0.5
            f = all if u else any
            return (tm.all_ if u else tm.ex_)(v, lo[0], hi[0], x[0]), lambda e, b: f([x[1](e, {**b, v: Fraction(q)}) for q in range(int(lo[1](e, b)), int(hi[1](e, b)))])
        k = r.randrange(12)
        if k in (0, 1):
            x, y = T(sort), T(sort)
            return tm.add(x[0], y[0]), lambda e, b: x[1](e, b) + y[1](e, b)
        if k == 2:
            x, y = T(sort), T(sort)
            return tm.mul(x[0], y[0]), lambda e, b: x[1](e, b) * y[1](e, b)
        if k == 3:
            x, y = T(sort), T(sort)
            return tm.sub(x[0], y[0]), lambda e, b: x[1](e, b) - y[1](e, b)
        if k in (4, 5):
            c, x, y = T("B"), T(sort), T(sort)
            return tm.ite(c[0], x[0], y[0]), lambda e, b: x[1](e, b) if c[1](e, b) else y[1](e, b)
        if k == 6:
            return self.appl(sort, scope, d)
        if k == 7 and sort == "R":
            x, y = T("R"), T("R")

            def dv(e, b):
                p, q = x[1](e, b), y[1](e, b)
                if q == 0:
                    raise Undef
                return p / q

            return tm.div(x[0], y[0]), dv
        if k == 8 and sort == "I":
            x, y = T("I"), T("I")
            u = r.random() < 0.5

            def dm(e, b):
                p, q = int(x[1](e, b)), int(y[1](e, b))
                if q == 0:
                    raise Undef
                z = abs(p) // abs(q) * (1 if (p >= 0) == (q >= 0) else -1)
                return Fraction(z if u else p - z * q)

            return (tm.idiv if u else tm.imod)(x[0], y[0]), dm
        v = self.var("I")
        inner = [w for w in scope if w is not v] + [v]
        lo, hi = T("I"), T("I")
        rng = lambda e, b: range(int(lo[1](e, b)), int(hi[1](e, b)))
        if k in (9, 10) and sort == "R":
            x = self.term("R", inner, d - 1)
            return tm.sum_(v, lo[0], hi[0], x[0]), lambda e, b: sum((x[1](e, {**b, v: Fraction(q)}) for q in rng(e, b)), Fraction(0))
        if k == 11 and sort == "I":
            x = self.term("B", inner, d - 1)

            def fi(e, b):
                l, h = int(lo[1](e, b)), int(hi[1](e, b))
                if h < l:
                    raise Undef
                return Fraction(next((q for q in range(l, h) if x[1](e, {**b, v: Fraction(q)})), h))

            return tm.first_(v, lo[0], hi[0], x[0]), fi
        a = self.var("R") if sort == "R" else tm.bv(f"@i{self.n}", "I")
        init = T(sort)
        x = self.term(sort, [w for w in inner if w is not a] + [a], d - 1)

        def fo(e, b):
            acc = init[1](e, b)
            for q in rng(e, b):
                acc = x[1](e, {**b, v: Fraction(q), a: acc})
                if abs(acc) > 10**9:
                    raise Undef
            return acc

        return tm.fold_(a, v, lo[0], hi[0], init[0], x[0]), fo


def value(f):
    try:
        return f()
    except (Undef, ZeroDivisionError):
        return None


def run(seconds, seed):
    r = random.Random(seed)
    t0 = time.time()
    n = und = bad = 0
    while time.time() - t0 < seconds:
        g = Gen(r)
        free = [tm.bv("@x"), tm.bv("$0"), tm.bv("$1"), tm.bv("@r", "R")]
        sort = r.choice("IRB")
        t, m = g.term(sort, free, r.choice((2, 3, 4, 5)))
        if tm.size(t) > 400:
            continue
        cases = [("construction", t, m)]
        # substitution of free bound variables and of ground applications, through every binder
        x = r.choice(free)
        u, um = g.term(x.sort, free, 2)
        cases.append(("substitution", tm.subst(t, {x: u}), lambda e, b: m(e, {**b, x: um(e, b)})))
        two = r.sample(free[:3], 2)
        (p, pm), (q, qm) = g.term("I", free, 2), g.term("I", free, 2)
        cases.append(("simultaneous substitution", tm.subst(t, dict(zip(two, (p, q)))), lambda e, b: m(e, {**b, two[0]: pm(e, b), two[1]: qm(e, b)})))
        cases.append(("renaming", tm.subst(tm.subst(t, {x: tm.bv("@zz", x.sort)}), {tm.bv("@zz", x.sort): x}), m))
        cases.append(("map_term identity", tm.map_term(t, lambda y: y), m))
        c, cm = g.term("B", free, 2)
        if c.op not in ("tt", "ff"):
            cases.append(("assume", smt.assume(t, c, True), lambda e, b: m(e, b) if cm(e, b) else None))
            cases.append(("assume not", smt.assume(t, c, False), lambda e, b: m(e, b) if not cm(e, b) else None))
        for k in range(3):
            env = Env((seed, n, k))
            b = {y: Fraction(r.randint(-2, 3)) for y in free}
            for name, tt, mm in cases:
                want = value(lambda: mm(env, b))
                if want is None:
                    und += 1
                    continue
                got = value(lambda: ev(tt, env, b))
                if got is None:
                    und += 1  # terms may lose definedness only where a division by zero is involved
                    continue
                if got != want:
                    bad += 1
                    print("MISMATCH", name, "got", got, "want", want)
                    print("  term ", tm.show(t)[:600])
                    print("  after", tm.show(tt)[:600])
                    print("  env  ", {str(tm.show(y)): str(v) for y, v in b.items()})
                    if bad >= 5:
                        return n, und, bad
        n += 1
    return n, und, bad


def prover(seconds, seed):
    """whatever the prover proves holds in every sampled structure that satisfies the hypotheses"""
    r = random.Random(seed)
    t0 = time.time()
    n = proved = bad = checked = 0
    while time.time() - t0 < seconds:
        g = Gen(r)
        free = []
        hyps = [g.term("B", free, r.choice((1, 2, 3))) for _ in range(r.choice((0, 1, 2, 3)))]
        k = r.randrange(3)
        sort = r.choice("IR")
        if k == 0:
            goal = g.term("B", free, r.choice((2, 3, 4)))
        else:  # two ways of writing similar things
            a, am = g.term(sort, free, r.choice((2, 3, 4)))
            c, cm = g.term("B", free, 2)
            o, om = g.term(sort, free, 2)
            b, bm = tm.ite(c, a, o), lambda e, s, am=am, cm=cm, om=om: am(e, s) if cm(e, s) else om(e, s)
            if r.random() < 0.5:
                hyps.append((c, cm))
            goal = (tm.eq(a, b), lambda e, s, am=am, bm=bm: am(e, s) == bm(e, s)) if k == 1 else (tm.le(a, b), lambda e, s, am=am, bm=bm: am(e, s) <= bm(e, s))
        n += 1
        hs = [h[0] for h in hyps]
        if any(h is tm.FALSE for h in hs):
            continue
        pr = smt.Prover(timeout_ms=1500)
        res = pr.prove(goal[0], hs) if r.random() < 0.6 or goal[0].op != "eq0" else pr.prove_zero(goal[0].args[0], hs, 0)
        if not res.ok:
            continue
        proved += 1
        for q in range(60):
            env = Env((seed, n, q))
            hv = [value(lambda h=h: h[1](env, {})) for h in hyps]
            if any(v is not True for v in hv):
                continue
            gv = value(lambda: goal[1](env, {}))
            if gv is None:
                continue
            checked += 1
            if gv is not True:
                bad += 1
                print("UNSOUND", res)
                print("  goal", tm.show(goal[0])[:700])
                for h in hs:
                    print("  hyp ", tm.show(h)[:500])
                print("  env ", {str(k): str(v) for k, v in env.tab.items()})
                break
        if bad >= 4:
            break
    print(f"prover: {n} random goals, {proved} proved, {checked} sampled structures, {bad} wrong")
    return bad


if __name__ == "__main__":
    if len(sys.argv) > 3 and sys.argv[3] == "prover":
        sys.exit(1 if prover(float(sys.argv[1]), int(sys.argv[2])) else 0)
    sec = float(sys.argv[1]) if len(sys.argv) > 1 else 60
    n, und, bad = run(sec, int(sys.argv[2]) if len(sys.argv) > 2 else 1)
    print(f"{n} random terms, {und} undefined evaluations skipped, {bad} mismatches")
    sys.exit(1 if bad else 0)
