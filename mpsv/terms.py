"""Hash-consed logical terms with a ring normal form.

Numeric terms are kept as polynomials (rational coefficients, integer exponents) over atoms.  A negative exponent is a
division; every division the code performs produces a 'denominator is non-zero' obligation, which is what justifies
cancelling x * x^-1.  Sorts: 'I' (mathematical integer), 'R' (real), 'B' (bool), anything else is opaque.
"""
from fractions import Fraction
from math import gcd

_table = {}
_counter = [0]


class T:
    __slots__ = ("op", "args", "sort", "id", "fv", "lvl", "_h", "szc")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    def __deepcopy__(self, memo):
        return self


def _mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        _counter[0] += 1
        t.id = _counter[0]
        t.szc = None
        _table[key] = t
        fv = frozenset()
        lvl = 0
        for a in _kids(t):
            if a.fv:
                fv = fv | a.fv if fv else a.fv
            if a.lvl > lvl:
                lvl = a.lvl
        if op == "bv":
            fv = frozenset([t])
        elif op in BINDERS:  # the last argument is the scope of the bound variables
            fv = args[-1].fv - frozenset(args[0])
            for a in args[1:-1]:
                if a is not None:
                    fv = fv | a.fv
            lvl = lvl + 1
        t.fv = fv
        t.lvl = lvl
    return t


# binder terms: args[0] = bound variable(s) tuple ; the rest as documented
# sum(v, lo, hi, body)  all(v, lo, hi, body)  ex(v, lo, hi, body)  sfor(v, lo, hi, streambody)
# fold((acc,k), lo, hi, init, step)
# first(v, lo, hi, cond): least v in [lo,hi) with cond (hi when none)
# lam(vars, body)
BINDERS = {"sum", "all", "ex", "sfor", "fold", "first", "lam", "cnt"}


def bound_of(t):
    return t.args[0]


def _kids(t):
    op = t.op
    if op == "poly":
        for mono, c in t.args:
            for a, e in mono:
                yield a
    elif op in ("num", "bv", "str", "tt", "ff"):
        return
    elif op in BINDERS:
        for a in t.args[1:]:
            if a is not None:
                yield a
    else:
        for a in t.args:
            if isinstance(a, T):
                yield a


kids = lambda t: list(_kids(t))

# ------------------------------------------------------------------ constants / variables
TRUE = _mk("tt", (), "B")
FALSE = _mk("ff", (), "B")


def num(v, sort=None):
    v = Fraction(v)
    return _mk("num", (v,), "I" if v.denominator == 1 else "R")


ZERO = num(0)
ONE = num(1)


def boolc(b):
    return TRUE if b else FALSE


def isnum(t):
    return t.op == "num"


def cval(t):
    return t.args[0]


def app(name, args=(), sort="R"):
    return _mk("app", (name,) + tuple(args), sort)


def const(name, sort="R"):
    return app(name, (), sort)


_fresh = {}
made = []  # every fresh name, in order of creation (iteration-local symbols are generalised by the loop rule)


def fresh(name, sort="R", args=()):
    n = _fresh.get(name, 0)
    _fresh[name] = n + 1
    made.append(f"{name}~{n}")
    return app(f"{name}~{n}", args, sort)


def bv(name, sort="I"):
    return _mk("bv", (name,), sort)


def arg(i, sort="I"):
    return bv(f"#{i}", sort)


def strc(s):
    return _mk("str", (s,), "S")


# ------------------------------------------------------------------ polynomials
def _poly_items(t):
    if t.op == "poly":
        return t.args
    if t.op == "num":
        return (((), t.args[0]),) if t.args[0] != 0 else ()
    return ((((t, 1),), Fraction(1)),)


def _from_dict(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    sort = "I"
    for m, c in items:
        if c.denominator != 1:
            sort = "R"
        for a, e in m:
            if a.sort == "R" or e < 0:
                sort = "R"
    return _mk("poly", tuple(items), sort)


def add(*ts):
    d = {}
    for t in ts:
        for m, c in _poly_items(t):
            d[m] = d.get(m, 0) + c
    return _from_dict(d)


def scale(t, c):
    c = Fraction(c)
    if c == 0:
        return ZERO
    return _from_dict({m: k * c for m, k in _poly_items(t)})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    """product of two monomials -> (mono, extra polynomial factor or None)"""
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = None
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == "sqrt" and (e >= 2 or e <= -2):
            q = e // 2 if e > 0 else -((-e) // 2)
            r = e - 2 * q
            f = powi(a.args[0], q)
            extra = f if extra is None else mul(extra, f)
            if r:
                out.append((a, r))
            continue
        if a.op == "P" and e > 0:
            f = powi(a.args[0], e)
            extra = f if extra is None else mul(extra, f)
            continue
        out.append((a, e))
    out.sort(key=lambda ae: ae[0].id)
    return tuple(out), extra


def mul(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = _mul2(r, t)
    return r


def _mul2(x, y):
    if x.op == "num" and x.args[0] == 1:
        return y
    if y.op == "num" and y.args[0] == 1:
        return x
    # a whole polynomial times its own inverse
    for p, q in ((x, y), (y, x)):
        if p.op == "poly" and q.op != "num":
            qi = _poly_items(q)
            if all(any(a.op == "P" and e < 0 for a, e in m) for m, c in qi):
                mp, lc = _monic(p)
                if all(any(a.op == "P" and e < 0 and a.args[0] is mp for a, e in m) for m, c in qi):
                    d = {}
                    for m, c in qi:
                        m2 = []
                        for a, e in m:
                            if a.op == "P" and a.args[0] is mp:
                                e += 1
                            if e:
                                m2.append((a, e))
                        m2 = tuple(m2)
                        d[m2] = d.get(m2, 0) + c * lc
                    return _from_dict(d)
    d = {}
    extras = []
    for m1, c1 in _poly_items(x):
        for m2, c2 in _poly_items(y):
            m, extra = _mono_mul(m1, m2)
            if extra is None:
                d[m] = d.get(m, 0) + c1 * c2
            else:
                extras.append(_mul2(_from_dict({m: c1 * c2}), extra))
    r = _from_dict(d)
    if extras:
        r = add(r, *extras)
    return r


def _monic(p):
    it = _poly_items(p)
    lc = it[0][1]
    return (scale(p, 1 / lc), lc) if lc != 1 else (p, lc)


def inv(t):
    if t.op == "num":
        if t.args[0] == 0:
            return app("DIVZERO", (), "R")
        return num(1 / t.args[0])
    it = _poly_items(t)
    if len(it) == 1:
        m, c = it[0]
        r = num(1 / c)
        for a, e in m:
            if a.op == "sqrt":
                r = _mul2(r, _from_dict({((a, -e),): Fraction(1)}) if abs(e) < 2 else powi(a, -e))
            elif a.op == "ite":
                # push the inverse inside: 1/ite(c,a,b) = ite(c,1/a,1/b)
                r = _mul2(r, powi(ite(a.args[0], inv(a.args[1]), inv(a.args[2])), e))
            else:
                r = _mul2(r, _from_dict({((a, -e),): Fraction(1)}))
        return r
    p, lc = _monic(t)
    P = _mk("P", (p,), "R")
    return _from_dict({((P, -1),): 1 / lc})


def div(a, b):
    return mul(a, inv(b))


def powi(t, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(powi(t, -n))
    r = t
    for _ in range(n - 1):
        r = _mul2(r, t)
    return r


def _isq(fr):
    from math import isqrt
    n, d = fr.numerator, fr.denominator
    if n < 0:
        return None
    a, b = isqrt(n), isqrt(d)
    return Fraction(a, b) if a * a == n and b * b == d else None


def sqrt(t):
    if t.op == "num":
        r = _isq(t.args[0])
        if r is not None:
            return num(r)
        q, f = t.args[0], Fraction(1)
        if 0 < q < 10 ** 8 and q.denominator < 10 ** 4:   # square factors leave the root
            n = q.numerator * q.denominator
            f /= q.denominator
            for p in range(2, 100):
                while n % (p * p) == 0:
                    n //= p * p
                    f *= p
            if f != 1:
                return scale(_mk("sqrt", (num(n),), "R"), f)
    return _mk("sqrt", (t,), "R")


def multiple(d, p, limit=40):
    """d = q * p for a (Laurent) polynomial q with few terms"""
    atoms = sorted({a for t in (d, p) for m, _ in _poly_items(t) for a, _ in m}, key=lambda a: a.id)
    def lead(t):
        return max(((tuple(dict(m).get(a, 0) for a in atoms), m, c) for m, c in _poly_items(t)), key=lambda x: x[0])
    pk, pm, pc = lead(p)
    pinv = inv(_from_dict({pm: Fraction(1)}))
    last = None
    for _ in range(limit):
        if d is ZERO:
            return True
        if d.op == "num":
            return False
        try:
            k, m, c = lead(d)
        except ValueError:
            return False
        if any(a not in atoms for mm, _ in _poly_items(d) for a, _ in mm) or (last is not None and k >= last):
            return False
        last = k
        d = sub(d, mul(scale(_from_dict({m: c}), 1 / pc), pinv, p))
    return d is ZERO


def root_of_square(t, positive):
    """sqrt(c * a^2 * ...) without the root, when the factors are known to be positive"""
    it = _poly_items(t.args[0])
    if len(it) != 1:
        return None
    m, c = it[0]
    if c <= 0 or not m or any(e % 2 or a not in positive for a, e in m):
        return None
    return mul(sqrt(num(c)), *[powi(a, e // 2) for a, e in m])


def is_sum_of_squares(t):
    for m, c in _poly_items(t):
        if c < 0 or any(e % 2 for a, e in m):
            return False
    return True


def trunc(t):
    if t.op == "num":
        v = t.args[0]
        return num(int(v))
    if t.sort == "I":
        return t
    return _mk("trunc", (t,), "I")


def idiv(a, b):
    if isnum(a) and isnum(b) and cval(b) != 0:
        q = abs(cval(a)) // abs(cval(b))
        return num(q if (cval(a) >= 0) == (cval(b) > 0) else -q)
    if isnum(b) and cval(b) == 1:
        return a
    return _mk("idiv", (a, b), "I")


def imod(a, b):
    if isnum(a) and isnum(b) and cval(b) != 0:
        return sub(a, mul(b, idiv(a, b)))
    return _mk("imod", (a, b), "I")


# ------------------------------------------------------------------ booleans
def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "lt0" and t.args[0].sort == "I":
        return _lt0(sub(num(-1), t.args[0]))
    if t.op == "and":
        return or_(*[not_(a) for a in t.args])
    if t.op == "or":
        return and_(*[not_(a) for a in t.args])
    if t.op == "all":
        v, lo, hi, b = t.args
        return _mk("ex", (v, lo, hi, not_(b)), "B")
    if t.op == "ex":
        v, lo, hi, b = t.args
        return _mk("all", (v, lo, hi, not_(b)), "B")
    return _mk("not", (t,), "B")


def _nary(op, ts, unit, zero):
    out = []
    seen = set()
    for t in ts:
        if t is unit:
            continue
        if t is zero:
            return zero
        for u in (t.args if t.op == op else (t,)):
            if u in seen:
                continue
            seen.add(u)
            out.append(u)
    for u in out:
        if not_(u) in seen:
            return zero
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    # absorption: a and (a or b) -> a ; a and (not a or b) -> a and b
    dual = "or" if op == "and" else "and"
    res = []
    changed = False
    for u in out:
        if u.op == dual:
            if any(x in seen for x in u.args):
                changed = True
                continue
            keep = [x for x in u.args if not_(x) not in seen]
            if len(keep) != len(u.args):
                changed = True
                u = (or_ if dual == "or" else and_)(*keep)
        res.append(u)
    if changed:
        return _nary(op, res, unit, zero)
    res.sort(key=lambda t: t.id)
    return _mk(op, tuple(res), "B")


def and_(*ts):
    return _nary("and", ts, TRUE, FALSE)


def or_(*ts):
    return _nary("or", ts, FALSE, TRUE)


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return ite(a, b, not_(b))


def _lt0(p):
    """p < 0, scaled to a canonical representative"""
    if p.op == "num":
        return boolc(p.args[0] < 0)
    if p.sort == "I":
        g = 0
        cst = Fraction(0)
        for m, c in _poly_items(p):
            if m == ():
                cst = c
            else:
                g = gcd(g, int(c))
        if g > 1:
            # g*q + c < 0  <=>  q < -c/g  <=>  q + floor(c/g) + (1 if not divisible... ) keep exact integer reasoning
            d = {m: c / g for m, c in _poly_items(p) if m != ()}
            # q <= ceil(-c/g) - 1  <=> q - ceil(-c/g) < 0
            k = -((cst / g).__floor__())  # ceil(-c/g)
            d[()] = -Fraction(k)
            p = _from_dict(d)
    else:
        lc = abs(_poly_items(p)[0][1])
        if lc != 1:
            p = scale(p, 1 / lc)
    return _mk("lt0", (p,), "B")


def lt(a, b):
    if a.op == "ite" and isnum(b) and (isnum(a.args[1]) or isnum(a.args[2])):
        return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    if b.op == "ite" and isnum(a) and (isnum(b.args[1]) or isnum(b.args[2])):
        return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
    return _lt0(sub(a, b))


def gt(a, b):
    return lt(b, a)


def le(a, b):
    return not_(lt(b, a))


def ge(a, b):
    return not_(lt(a, b))


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B":
        return iff(a, b)
    if a.sort in ("I", "R"):
        # ite against a constant: push
        for x, y in ((a, b), (b, a)):
            if x.op == "ite" and isnum(y) and (isnum(x.args[1]) or isnum(x.args[2])):
                return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
        p = sub(a, b)
        if p.op == "num":
            return boolc(p.args[0] == 0)
        it = _poly_items(p)
        lc = it[0][1]
        if lc != 1:
            p = scale(p, 1 / lc)
        if p.sort == "I" and a.sort == "I":
            pass
        if p.sort == "R" and all(x.sort == "I" for m, c in it for x, e in m) and all(e > 0 for m, c in it for x, e in m):
            # integral variables with rational coefficients: clear denominators
            L = 1
            for m, c in _poly_items(p):
                L = L * c.denominator // gcd(L, c.denominator)
            p = scale(p, L)
        return _mk("eq0", (p,), "B")
    if a.op == "str" and b.op == "str":
        return boolc(a.args[0] == b.args[0])
    if a.op == "ite" and (b.op == "str"):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and (a.op == "str"):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.sort == "O":
        na, nb = _address(a), _address(b)
        if na and nb and na != nb and ("&heap" in na[:5] or "&heap" in nb[:5]):
            return FALSE  # a new object is neither null nor another object
        for x, y in ((a, b), (b, a)):
            if x.op == "ite" and (_address(y)):
                return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", (a, b), "B")


def _address(t):
    if t.op == "app" and len(t.args) == 1 and (t.args[0] == "null" or t.args[0].startswith("&heap")):
        return t.args[0]
    return None


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    sort = a.sort
    if sort != b.sort:
        sort = "R" if {sort, b.sort} == {"I", "R"} else (a.sort)
    if sort == "B":
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    a = prune(a, c, True)
    b = prune(b, c, False)
    if a is b:
        return a
    # ite(c, x, ite(d, x, y)) -> ite(c or d, x, y)
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a:
        return ite(and_(not_(c), b.args[0]), b.args[1], a)
    if a.op == "ite" and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b:
        return ite(and_(c, not_(a.args[0])), a.args[2], b)
    if c.op == "lt0" and c.args[0].sort == "I":
        # orient canonically: keep the representative with the smaller id
        n = not_(c)
        if n.op == "lt0" and n.id < c.id:
            return _mk("ite", (n, b, a), sort)
    return _mk("ite", (c, a, b), sort)


def prune(t, c, val):
    """drop the branches of top-level ites of t that contradict c == val"""
    n = 0
    while t.op == "ite" and n < 50:
        n += 1
        d = t.args[0]
        if d is c:
            t = t.args[1] if val else t.args[2]
            continue
        if d is not_(c):
            t = t.args[2] if val else t.args[1]
            continue
        if val and c.op == "and" and d in c.args:
            t = t.args[1]
            continue
        if not val and c.op == "or" and d in c.args:
            t = t.args[2]
            continue
        break
    return t


def max_(a, b):  # std::max(a,b): a<b ? b : a
    return ite(lt(a, b), b, a)


def min_(a, b):  # std::min(a,b): b<a ? b : a
    return ite(lt(b, a), b, a)


def abs_(a):
    return ite(lt(a, ZERO), neg(a), a)


# ------------------------------------------------------------------ binders
def _canon(body, v, sort="I", outside=()):
    """the canonical bound variable for the level of the body; a level whose variable is free in the term is skipped"""
    lvl = body.lvl
    while True:
        cv = bv(f"${lvl}", sort)
        if (cv is v or cv not in body.fv) and not any(t is not None and cv in t.fv for t in outside):
            return cv
        lvl += 1


def sum_(v, lo, hi, body):
    assert v.op == "bv"
    if body is ZERO:
        return ZERO
    if isnum(lo) and isnum(hi) and cval(hi) - cval(lo) <= 64:
        r = ZERO
        x = cval(lo)
        while x < cval(hi):
            r = add(r, subst(body, {v: num(x)}))
            x += 1
        return r
    if v not in body.fv:
        # (hi-lo)+ * body
        n = ite(lt(lo, hi), sub(hi, lo), ZERO)
        return mul(n, body)
    cv = _canon(body, v, outside=(lo, hi))
    if cv is not v:
        body = subst(body, {v: cv})
    return _mk("sum", ((cv,), lo, hi, body), "R" if body.sort == "R" else body.sort)


def _quant(op, v, lo, hi, body):
    assert v.op == "bv"
    unit = TRUE if op == "all" else FALSE
    if body is unit:
        return unit
    if lo is not None and isnum(lo) and isnum(hi):
        if cval(hi) <= cval(lo):
            return unit
        if cval(hi) - cval(lo) <= 8:
            r = []
            x = cval(lo)
            while x < cval(hi):
                r.append(subst(body, {v: num(x)}))
                x += 1
            return and_(*r) if op == "all" else or_(*r)
    if v not in body.fv:
        if lo is None:
            return body
        return implies(lt(lo, hi), body) if op == "all" else and_(lt(lo, hi), body)
    cv = _canon(body, v, v.sort, (lo, hi))
    if cv is not v:
        body = subst(body, {v: cv})
    return _mk(op, ((cv,), lo, hi, body), "B")


def all_(v, lo, hi, body):
    return _quant("all", v, lo, hi, body)


def ex_(v, lo, hi, body):
    return _quant("ex", v, lo, hi, body)


def first_(v, lo, hi, cond):
    assert v.op == "bv"
    cv = _canon(cond, v, outside=(lo, hi))
    if cv is not v:
        cond = subst(cond, {v: cv})
    return _mk("first", ((cv,), lo, hi, cond), "I")


def fold_(acc, k, lo, hi, init, step):
    assert acc.op == "bv" and k.op == "bv"
    lvl = max(step.lvl, 0)
    while True:
        ca, ck = bv(f"$a{lvl}", acc.sort), bv(f"${lvl}", "I")
        if not any((x in step.fv and x is not acc and x is not k) or x in lo.fv or x in hi.fv or x in init.fv for x in (ca, ck)):
            break
        lvl += 1
    if acc is not ca or k is not ck:
        step = subst(step, {acc: ca, k: ck})
    if step is ca or hi is lo:
        return init
    if ck not in step.fv:  # a repeated step that settles at once
        v1 = subst(step, {ca: init})
        if v1 is init:
            return init
        if subst(step, {ca: v1}) is v1:
            return ite(lt(lo, hi), v1, init)
    return _mk("fold", ((ca, ck), lo, hi, init, step), init.sort if init.sort != "I" else step.sort)


# ------------------------------------------------------------------ streams (ordered item lists); sort 'X'
def item(kind, *args):
    if kind == "int" and len(args) == 1 and isnum(args[0]) and cval(args[0]).denominator == 1:
        return _mk("item", ("lit", strc(str(int(cval(args[0]))))), "X")
    return _mk("item", (kind,) + tuple(args), "X")


NIL = _mk("cat", (), "X")


def cat(*ts):
    out = []
    for t in ts:
        if t.op == "cat":
            out.extend(t.args)
        else:
            out.append(t)
    # merge adjacent literal text
    res = []
    for t in out:
        if res and t.op == "item" and t.args[0] == "lit" and res[-1].op == "item" and res[-1].args[0] == "lit":
            res[-1] = item("lit", strc(res[-1].args[1].args[0] + t.args[1].args[0]))
        elif t.op == "item" and t.args[0] == "lit" and t.args[1].op == "str" and t.args[1].args[0] == "":
            continue
        else:
            res.append(t)
    if len(res) == 1:
        return res[0]
    return _mk("cat", tuple(res), "X")


def cat_items(t):
    return t.args if t.op == "cat" else (t,)


def site(c, a, b):
    """conditional stream"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    A, B = list(cat_items(a)), list(cat_items(b))
    pre = []
    while A and B and A[0] is B[0]:
        pre.append(A.pop(0))
        B.pop(0)
    post = []
    while A and B and A[-1] is B[-1]:
        post.insert(0, A.pop())
        B.pop()
    a, b = cat(*A), cat(*B)
    if a is b:
        mid = a
    elif c.op == "not":
        mid = _mk("site", (c.args[0], b, a), "X")
    else:
        mid = _mk("site", (c, a, b), "X")
    return cat(*pre, mid, *post)


def sfor(v, lo, hi, body):
    if body is NIL:
        return NIL
    if isnum(lo) and isnum(hi) and cval(hi) - cval(lo) <= 8:
        r = []
        x = cval(lo)
        while x < cval(hi):
            r.append(subst(body, {v: num(x)}))
            x += 1
        return cat(*r)
    if lo is not ZERO:  # every repetition starts at 0
        lo, hi, body = ZERO, sub(hi, lo), subst(body, {v: add(v, lo)})
    cv = _canon(body, v, outside=(lo, hi))
    if cv is not v:
        body = subst(body, {v: cv})
    return _mk("sfor", ((cv,), lo, hi, body), "X")


def lam(vs, body):
    return _mk("lam", (tuple(vs), body), "L")


# ------------------------------------------------------------------ rebuild / substitution
def rebuild(t, f):
    """apply f to the children and rebuild with smart constructors"""
    op = t.op
    if op in ("num", "bv", "str", "tt", "ff"):
        return t
    if op == "poly":
        chg = False
        cache = {}
        for mono, c in t.args:
            for a, e in mono:
                if a not in cache:
                    b = f(a)
                    cache[a] = b
                    if b is not a:
                        chg = True
        if not chg:
            return t
        d = {}
        extra = []
        for mono, c in t.args:
            same = all(cache[a] is a for a, e in mono)
            if same:
                d[mono] = d.get(mono, 0) + c
                continue
            r = num(c)
            for a, e in mono:
                b = cache[a]
                r = _mul2(r, powi(b, e))
            extra.append(r)
        return add(_from_dict(d), *extra)
    if op == "app":
        args = tuple(f(a) if isinstance(a, T) else a for a in t.args[1:])
        if all(x is y for x, y in zip(args, t.args[1:])):
            return t
        return app_s(t.args[0], args, t.sort)
    if op in BINDERS:
        rest = tuple(f(a) if a is not None else None for a in t.args[1:])
        if all(x is y for x, y in zip(rest, t.args[1:])):
            return t
        v = t.args[0]
        if op == "sum":
            return sum_(v[0], *rest)
        if op in ("all", "ex"):
            return _quant(op, v[0], *rest)
        if op == "first":
            return first_(v[0], *rest)
        if op == "fold":
            return fold_(v[0], v[1], *rest)
        if op == "sfor":
            return sfor(v[0], *rest)
        if op == "lam":
            return lam(v, rest[0])
    args = tuple(f(a) if isinstance(a, T) else a for a in t.args)
    if all(x is y for x, y in zip(args, t.args)):
        return t
    if op == "P":
        raise AssertionError("P rebuilt directly")
    if op == "sqrt":
        return sqrt(args[0])
    if op == "trunc":
        return trunc(args[0])
    if op == "idiv":
        return idiv(*args)
    if op == "imod":
        return imod(*args)
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "lt0":
        return lt(args[0], ZERO)
    if op == "eq0":
        return eq(args[0], ZERO)
    if op == "eq":
        return eq(*args)
    if op == "ite":
        return ite(*args)
    if op == "cat":
        return cat(*args)
    if op == "site":
        return site(*args)
    if op == "item":
        return item(*args)
    return _mk(op, args, t.sort)


# rewriting hook for applications of registered symbols (e.g. string functions on literals)
APP_SIMP = {}


def app_s(name, args, sort):
    h = APP_SIMP.get(name)
    if h:
        r = h(args)
        if r is not None:
            return r
    return app(name, args, sort)


def subst(t, m):
    if not m:
        return t
    keys = frozenset(m)
    cache = {}
    allbv = all(k.op == "bv" for k in m)

    def go(t):
        if t in m:
            return m[t]
        if allbv and not (t.fv & keys):
            return t
        r = cache.get(t)
        if r is not None:
            return r
        if t.op == "P":
            # polynomial inverse atom: rebuilt through its polynomial, as P(x)^1 stands for x
            r = go(t.args[0])
        elif t.op in BINDERS:
            r = _subst_binder(t, go, m)
        else:
            r = rebuild(t, go)
        cache[t] = r
        return r

    return go(t)


_uniq = [0]


def _subst_binder(t, go, m):
    # avoid capture: when a replacement mentions the bound variable, rename it first
    bound = t.args[0]
    danger = False
    for k, v in m.items():
        if v.fv & set(bound) or k in bound:
            danger = True
            break
    if danger:
        ren = {}
        nb = []
        for b in bound:
            _uniq[0] += 1
            x = bv(f"${b.args[0]}r{_uniq[0]}", b.sort)
            ren[b] = x
            nb.append(x)
        if t.op == "fold":
            args = (tuple(nb), t.args[1], t.args[2], t.args[3], subst(t.args[4], ren))
        elif t.op == "lam":
            args = (tuple(nb), subst(t.args[1], ren))
        else:
            args = (tuple(nb),) + t.args[1:-1] + (subst(t.args[-1], ren),)
        t = _mk(t.op, args, t.sort)
    return rebuild(t, go)


def map_term(t, fn, cache=None):
    """bottom-up rewriting with fn(term)->term"""
    cache = {} if cache is None else cache

    def go(t):
        r = cache.get(t)
        if r is not None:
            return r
        if t.op == "P":
            r = go(t.args[0])
        else:
            r = fn(rebuild(t, go))
        cache[t] = r
        return r

    return go(t)


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(_kids(x))
    return seen


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def mentions(t, names):
    return any(x.op == "app" and x.args[0] in names for x in subterms(t))


def size(t):
    return len(subterms(t))


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if d > 14:
        return "…"
    op = t.op
    s = lambda x: show(x, d + 1)
    if op == "num":
        return str(t.args[0])
    if op in ("bv",):
        return t.args[0]
    if op == "str":
        return repr(t.args[0])
    if op == "tt":
        return "true"
    if op == "ff":
        return "false"
    if op == "app":
        return t.args[0] + ("(" + ", ".join(s(a) if isinstance(a, T) else str(a) for a in t.args[1:]) + ")" if len(t.args) > 1 else "")
    if op == "poly":
        out = []
        for m, c in t.args:
            f = []
            if c != 1 or not m:
                f.append(str(c))
            for a, e in m:
                x = s(a)
                if a.op in ("poly", "ite", "P"):
                    x = f"({x})"
                f.append(x if e == 1 else f"{x}^{e}")
            out.append("*".join(f))
        return " + ".join(out)
    if op == "lt0":
        return f"({s(t.args[0])} < 0)"
    if op == "eq0":
        return f"({s(t.args[0])} == 0)"
    if op == "ite":
        return f"ite({s(t.args[0])}, {s(t.args[1])}, {s(t.args[2])})"
    if op in BINDERS:
        return f"{op}[{','.join(v.args[0] for v in t.args[0])}]({', '.join(s(a) for a in t.args[1:])})"
    return f"{op}({', '.join(s(a) if isinstance(a, T) else str(a) for a in t.args)})"
