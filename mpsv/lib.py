"""Contracts of the library functions the code calls (Eigen, the C++ standard library, yaml-cpp, the csv reader).

These are assumed: they say what the library documents, and each one used by a check is listed in its evidence.
"""
from fractions import Fraction

from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE, num, arg
from .exec import (Unsupported, Dead, rounded, LV, Vec, SV, Ptr, It, Moved, Closure, Manip, FnRef, VOID, State, Frame, noref,
                   recname, is_eigen_vec, is_dynvec, is_stdvec, strip_templates, vec_type, str_concat, SCAL, SOLVERS)

DBL = {"c": "flt", "w": 64}
INT = {"c": "int", "w": 32, "s": True}
STR = {"c": "rec", "n": "std::basic_string", "a": []}
NULL = tm.const("null", "O")

# ------------------------------------------------------------------ symbols with simplification rules


def _bytelen(args):
    t = args[0]
    items = tm.cat_items(t)
    if t.op == "app":
        return None
    r = ZERO
    for x in items:
        if x.op == "item" and x.args[0] == "bin":
            r = tm.add(r, x.args[3])
        elif x.op == "item" and x.args[0] == "lit":
            r = tm.add(r, num(len(x.args[1].args[0].encode())))
        elif x.op == "sfor":
            b = tm.app_s("bytelen", (x.args[3],), "I")
            if b.op == "app":
                return None
            r = tm.add(r, tm.sum_(x.args[0][0], x.args[1], x.args[2], b))
        elif x.op == "site":
            a, b = tm.app_s("bytelen", (x.args[1],), "I"), tm.app_s("bytelen", (x.args[2],), "I")
            r = tm.add(r, tm.ite(x.args[0], a, b))
        elif len(items) > 1:
            r = tm.add(r, tm.app_s("bytelen", (x,), "I"))
        else:
            return None
    return r


def _sstr(args):
    t = args[0]
    if t is tm.NIL:
        return tm.strc("")
    if t.op == "item" and t.args[0] == "lit":
        return t.args[1]
    if t.op == "item" and t.args[0] == "text" and len(t.args) == 2:
        return t.args[1]
    return None


def _tostr(args):
    if tm.isnum(args[0]):
        return tm.strc(str(int(tm.cval(args[0]))))
    return None


tm.APP_SIMP["bytelen"] = _bytelen
tm.APP_SIMP["sstr"] = _sstr
tm.APP_SIMP["to_string"] = _tostr


class Tie:
    """std::tie: a tuple of references"""

    def __init__(self, lvs):
        self.lvs = lvs


def use(ex, q):
    ex.assumed.add(q)


def evargs(ex, e, st, fr, start=0):
    return [ex.ev(a, st, fr) for a in e["args"][start:]]


def rvt(ex, st, v):
    v = ex.rv(st, v)
    if not isinstance(v, T):
        raise Unsupported(f"scalar expected, got {type(v).__name__}")
    return v


def vecval(ex, st, v):
    v = ex.rv(st, v)
    if isinstance(v, Vec):
        return v
    raise Unsupported("vector value expected")


def squared(v):
    return tm.add(*[tm.mul(x, x) for x in v.c])


def stop(ex, st, kind, code, where):
    S = st.copy()
    S.cells[("#exit", ())] = code
    ex.exits.append((kind, list(st.pc), S, where))
    raise Dead()


def trig(name, x):
    if x is ZERO:
        return ONE if name == "cos" else ZERO
    return tm.app(name, (x,), "R")


def mround(x):
    """round half away from zero"""
    if tm.isnum(x):
        v = tm.cval(x)
        s = 1 if v >= 0 else -1
        return num(s * ((abs(v) + Fraction(1, 2)).__floor__()))
    return tm.ite(tm.lt(x, ZERO), tm.neg(tm.trunc(tm.add(tm.neg(x), num(Fraction(1, 2))))), tm.trunc(tm.add(x, num(Fraction(1, 2)))))


def mfloor(x):
    if tm.isnum(x):
        return num(tm.cval(x).__floor__())
    t = tm.trunc(x)
    return tm.ite(tm.lt(x, t), tm.sub(t, ONE), t)


def mceil(x):
    return tm.neg(mfloor(tm.neg(x)))


def copysign_(a, b):
    return tm.ite(tm.lt(b, ZERO), tm.neg(tm.abs_(a)), tm.abs_(a))


# ------------------------------------------------------------------ containers
def container(ex, st, v):
    if isinstance(v, Moved):
        v = v.lv
    if isinstance(v, Ptr):
        v = v.lv
    if isinstance(v, SV):
        v = ex.materialize(st, v, v.ty)
    if not isinstance(v, LV):
        raise Unsupported("container expected")
    return v


def vsize(ex, st, c):
    return ex.size_of(st, c)


def elty(c):
    t = noref(c.ty)
    if t["c"] == "arr":
        return t["t"]
    if is_dynvec(t) or is_eigen_vec(t):
        return DBL
    return t["a"][0]


def stream_of(ex, st, c):
    return ex.read_leaf(st, c, ("#stream",), "X")


def push(ex, st, c, make):
    """append one element; make(lv) initialises it"""
    n = vsize(ex, st, c)
    et = elty(c)
    el = c.elem(n, et)
    # a fresh element: nested containers start empty
    make(el)
    vals = []
    ok = True
    for rel, s in ex.leaves(et):
        if "[]" in rel:
            ok = False
            break
        if rel and rel[-1].startswith("#") and rel[-1] not in ("#has",):
            continue
        vals.append(ex.read_leaf(st, el, rel, s))
    old = stream_of(ex, st, c)
    new = tm.cat(old, tm.item("el", *vals)) if ok else tm.fresh("stream", "X")
    ex.write_leaf(st, c, ("#stream",), "X", new)
    ex.write_leaf(st, c, ("#size",), "I", tm.add(n, ONE))
    return el


def construct_from(ex, st, lv, args, et):
    """construct an element of type et from evaluated arguments"""
    if len(args) == 1 and not (et.get("repo") and recname(et) is not None and ctor_for(ex, et, args) is not None):
        v = args[0]
        ex.store(st, lv, v)
        return
    n = recname(et)
    if is_eigen_vec(et):
        ex.store(st, lv, Vec([rvt(ex, st, a) for a in args]))
        return
    if n == "Eigen::Triplet":
        for nm, s, a in zip(("row", "col", "val"), "IIR", args):
            ex.write_leaf(st, lv, (nm,), s, rvt(ex, st, a))
        return
    if n in ("std::pair", "std::tuple"):
        names = ["first", "second"] if n == "std::pair" else [f"e{i}" for i in range(len(args))]
        targs = et["a"][0] if et["a"] and isinstance(et["a"][0], list) else et["a"]
        for nm, a, ta in zip(names, args, targs):
            ex.store(st, lv.field(nm, ty=ta), a)
        return
    if et.get("repo") or ex.fields(n) is not None:
        f = ctor_for(ex, et, args)
        if f is not None:
            ex.default_init(st, lv, uninit=True)
            full = list(args)
            for p in f["params"][len(args):]:
                if p.get("def") is None:
                    raise Unsupported("missing constructor argument")
                full.append(ex.ev(p["def"], st, Frame(f["types"])))
            ex.call_fn(f, lv, full, st)
            return
        if not args:
            ex.default_init(st, lv)
            return
    if not args:
        ex.store(st, lv, ex.zero_value(et))
        return
    raise Unsupported(f"construction of {n} from {len(args)} arguments")


def ctor_for(ex, et, args):
    n = recname(et)
    if len(args) == 1:
        v = args[0]
        t = noref(v.lv.ty if isinstance(v, Moved) else v.ty) if isinstance(v, (LV, SV, Moved)) else None
        if t is not None and recname(t) == n:
            return None
    cands = [f for f in ex.prog.functions.values() if f.get("ctor") and f.get("cls") == n and len(f["params"]) >= len(args)]
    cands = [f for f in cands if len(f["params"]) == len(args) or f["params"][len(args)].get("def") is not None]
    if len(cands) == 1:
        return cands[0]
    if len(cands) > 1:
        exact = [f for f in cands if len(f["params"]) == len(args)]
        if len(exact) == 1:
            return exact[0]
        raise Unsupported(f"ambiguous constructor of {n}")
    return None


def clear(ex, st, c):
    ex.write_leaf(st, c, ("#size",), "I", ZERO)
    if is_stdvec(noref(c.ty)):
        ex.write_leaf(st, c, ("#stream",), "X", tm.NIL)


def resize(ex, st, c, n, fill=None):
    """elements beyond the old size are value-initialised (std::vector) or indeterminate (Eigen)"""
    t = noref(c.ty)
    old = vsize(ex, st, c)
    et = elty(c)
    eig = is_dynvec(t)
    for rel, s in ex.leaves(et):
        ar = rel.count("[]")
        if fill is not None:
            f = ex.rv(st, fill)
            z = f if isinstance(f, T) else (f.c[int(rel[0])] if isinstance(f, Vec) else f.leaves[rel])
            z = tm.subst(z, {arg(i): arg(i + 1) for i in range(ar)}) if ar else z
        elif eig:
            z = tm.fresh("uninit", s, tuple(arg(i) for i in range(ar + 1)))
        else:
            z = {"I": ZERO, "R": ZERO, "B": FALSE, "S": tm.strc(""), "O": NULL, "X": tm.NIL}.get(s)
            if z is None:
                z = tm.fresh("uninit", s, tuple(arg(i) for i in range(ar + 1)))
        cur = ex.read_leaf(st, c, ("[]",) + rel, s)
        if tm.isnum(old) and tm.cval(old) == 0:
            val = z
        elif eig:
            val = tm.ite(tm.eq(n, old), cur, z)
        else:
            val = tm.ite(tm.and_(tm.le(ZERO, arg(0)), tm.lt(arg(0), old)), cur, z)
        ex.write_leaf(st, c, ("[]",) + rel, s, val)
    ex.write_leaf(st, c, ("#size",), "I", n)
    if is_stdvec(t):
        ex.write_leaf(st, c, ("#stream",), "X", tm.fresh("stream", "X"))


class MapIt:
    def __init__(self, lv, key):
        self.lv, self.key = lv, key


def map_has(ex, st, m, k):
    return ex.read_leaf(st, LV(m.root, m.path + ("#has", "[]"), m.idxs + (k,)), (), "B")


def map_set_has(ex, st, m, k, v=TRUE):
    ex.write_leaf(st, LV(m.root, m.path + ("#has", "[]"), m.idxs + (k,)), (), "B", v)


def map_val_lv(m, k):
    t = noref(m.ty)
    return LV(m.root, m.path + ("#val", "[]"), m.idxs + (k,), t["a"][1])


# ------------------------------------------------------------------ output streams
FMT0 = ("0", " ", "6", "g")


def fmt_of(t):
    """(width term, fill, prec term, flags)"""
    if t.op == "app" and t.args[0] == "fmt":
        return list(t.args[1:])
    return [ZERO, tm.strc(" "), num(6), tm.strc("")]


def mkfmt(w, f, p, fl):
    if w is ZERO and f is tm.strc(" ") and p is num(6) and fl is tm.strc(""):
        return tm.const("fmt0", "F")
    return tm.app("fmt", (w, f, p, fl), "F")


SILENT = ("g:std::cerr", "g:std::cout", "g:std::clog")


def is_char(t):
    t = noref(t) if t else None
    return t is not None and t["c"] == "int" and t.get("w") == 8


def os_put(ex, st, os, v, ty):
    if isinstance(os, Moved):
        os = os.lv
    if not isinstance(os, LV):
        raise Unsupported("output stream expected")
    if os.root in SILENT:
        return os
    if isinstance(v, LV) and v.root in SILENT:
        raise Unsupported("stream into stream")
    if isinstance(v, Manip):
        w, f, p, fl = fmt_of(ex.read_leaf(st, os, ("#fmt",), "F"))
        k = v.kind
        if k == "endl":
            emit(ex, st, os, tm.item("lit", tm.strc("\n")))
            return os
        if k == "nop":
            return os
        if k == "setw":
            w = v.a
        elif k == "setfill":
            f = tm.strc(chr(int(tm.cval(v.a)))) if tm.isnum(v.a) else v.a
        elif k == "setprecision":
            p = v.a
        else:
            fl = tm.strc(k)
        ex.write_leaf(st, os, ("#fmt",), "F", mkfmt(w, f, p, fl))
        return os
    v = ex.rv(st, v)
    w, f, p, fl = fmt_of(ex.read_leaf(st, os, ("#fmt",), "F"))
    pad = () if w is ZERO else (w, f)
    if isinstance(v, T):
        if is_char(ty) and v.sort == "I":
            if tm.isnum(v):
                it = tm.item("lit", tm.strc(chr(int(tm.cval(v)) % 256)))
            else:
                it = tm.item("chr", v)
        elif v.sort == "S":
            it = tm.item("lit", v) if v.op == "str" and not pad else tm.item("text", v, *pad)
        elif v.sort == "B":
            it = tm.item("int", tm.ite(v, ONE, ZERO), *pad)
        else:
            t = noref(ty) if ty else None
            isflt = (t is not None and t["c"] == "flt") if t is not None else v.sort == "R"
            if isflt:
                extra = pad if (p is num(6) and fl is tm.strc("")) else (p, fl) + pad
                it = tm.item("real", v, *extra)
            else:
                it = tm.item("int", v, *pad)
    elif isinstance(v, Ptr):
        raise Unsupported("pointer output")
    elif isinstance(v, Vec):
        it = tm.item("vec", *v.c)
    else:
        raise Unsupported("output of " + type(v).__name__)
    if it.args[0] == "text" and len(it.args) == 2 and it.args[1].op == "app" and it.args[1].args[0] == "sstr":
        it = it.args[1].args[1]
    elif it.args[0] == "text" and len(it.args) == 2 and it.args[1].op == "app" and it.args[1].args[0] == "to_string":
        it = tm.item("int", it.args[1].args[1])
    elif it.args[0] == "text" and len(it.args) == 2 and it.args[1].op == "app" and it.args[1].args[0] == "concat":
        parts = []
        for q in it.args[1].args[1:]:
            if q.op == "app" and q.args[0] == "to_string":
                parts.append(tm.item("int", q.args[1]))
            elif q.op == "str":
                parts.append(tm.item("lit", q))
            else:
                parts.append(tm.item("text", q))
        it = tm.cat(*parts)
    emit(ex, st, os, it)
    if pad:
        ex.write_leaf(st, os, ("#fmt",), "F", mkfmt(ZERO, f, p, fl))
    return os


def emit(ex, st, os, it):
    old = ex.read_leaf(st, os, ("#out",), "X")
    ex.write_leaf(st, os, ("#out",), "X", tm.cat(old, it))


def typetag(t):
    t = noref(t)
    if t["c"] == "flt":
        return f"f{t['w']}"
    if t["c"] == "enum":
        return "s32"
    if t["c"] == "bool":
        return "u8"
    return ("s" if t.get("s") else "u") + str(t.get("w", 32))


def fname(v):
    return v


# ------------------------------------------------------------------ functions
MATH2 = {"std::max": tm.max_, "std::min": tm.min_, "fmax": tm.max_, "fmin": tm.min_, "std::fmax": tm.max_, "std::fmin": tm.min_}
ABS = {"abs", "fabs", "std::abs", "std::fabs"}
PURE = {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10", "tanh", "sinh", "cosh", "cbrt"}


def call(ex, q, e, st, fr):
    if q.startswith("std::__1::"):
        q = "std::" + q[10:]
    base = q.rsplit("::", 1)[-1]
    use(ex, q)
    if q in ("std::move", "std::forward"):
        v = ex.ev(e["args"][0], st, fr)
        return Moved(v) if isinstance(v, LV) and q == "std::move" else v
    if q in MATH2 and len(e["args"]) == 2:
        a, b = [rvt(ex, st, x) for x in evargs(ex, e, st, fr)]
        return MATH2[q](a, b)
    if q in ("std::max", "std::min") and len(e["args"]) == 1:
        l = container(ex, st, ex.ev(e["args"][0], st, fr))
        n = vsize(ex, st, l)
        if not tm.isnum(n):
            raise Unsupported("initializer list of unknown length")
        et = elty(l)
        r = None
        for i in range(int(tm.cval(n))):
            x = rvt(ex, st, l.elem(num(i), et))
            r = x if r is None else (tm.max_ if base == "max" else tm.min_)(r, x)
        return r
    if q in ABS:
        a = rvt(ex, st, ex.ev(e["args"][0], st, fr))
        t = ex.etype(e["args"][0], fr)
        if q == "abs" and t and noref(t)["c"] == "flt" and e.get("t") is not None and noref(fr.types[e["t"]])["c"] == "int":
            a = tm.trunc(a)
        return tm.abs_(a)
    if base in ("sqrt", "sqrtf") and len(e["args"]) == 1:
        a = rvt(ex, st, ex.ev(e["args"][0], st, fr))
        ex.oblige("sqrt", st, tm.le(ZERO, a), ex.where(e), "square root of a negative number")
        return tm.sqrt(a)
    if base == "hypot":
        xs = [rvt(ex, st, x) for x in evargs(ex, e, st, fr)]
        return tm.sqrt(tm.add(*[tm.mul(x, x) for x in xs]))
    if base == "pow":
        a, b = [rvt(ex, st, x) for x in evargs(ex, e, st, fr)]
        if tm.isnum(b) and tm.cval(b).denominator == 1 and abs(tm.cval(b)) <= 8:
            if tm.cval(b) < 0:
                ex.oblige("fdiv", st, tm.not_(tm.eq(a, ZERO)), ex.where(e), "denominator")
            return tm.powi(a, int(tm.cval(b)))
        if tm.isnum(b) and tm.cval(b) == Fraction(1, 2):
            return tm.sqrt(a)
        return tm.app("pow", (a, b), "R")
    if base in PURE and q in (base, "std::" + base):
        return trig(base, rvt(ex, st, ex.ev(e["args"][0], st, fr)))
    if base in ("round", "lround", "llround") and q in (base, "std::" + base):
        return mround(rvt(ex, st, ex.ev(e["args"][0], st, fr)))
    if base == "floor":
        return mfloor(rvt(ex, st, ex.ev(e["args"][0], st, fr)))
    if base == "ceil":
        return mceil(rvt(ex, st, ex.ev(e["args"][0], st, fr)))
    if base == "trunc":
        return tm.trunc(rvt(ex, st, ex.ev(e["args"][0], st, fr)))
    if base == "isnan" or base == "__builtin_isnan":
        return ex.nan_of(rvt(ex, st, ex.ev(e["args"][0], st, fr)))
    if base in ("isfinite", "__builtin_isfinite"):
        a = rvt(ex, st, ex.ev(e["args"][0], st, fr))
        return tm.not_(ex.nan_of(a))
    if base in ("__builtin_nanf", "__builtin_nan"):
        return tm.const("NAN", "R")
    if q == "std::clamp":
        v, lo, hi = [rvt(ex, st, x) for x in evargs(ex, e, st, fr)]
        return tm.ite(tm.lt(v, lo), lo, tm.ite(tm.lt(hi, v), hi, v))
    if q == "std::swap":
        a, b = evargs(ex, e, st, fr)
        x, y = ex.rv(st, a), ex.rv(st, b)
        ex.store(st, a, y)
        ex.store(st, b, x)
        return VOID
    if q in ("exit", "std::exit", "_exit", "std::quick_exit"):
        stop(ex, st, "exit", rvt(ex, st, ex.ev(e["args"][0], st, fr)), ex.where(e))
    if q in ("abort", "std::abort", "std::terminate"):
        stop(ex, st, "exit", num(-1), ex.where(e))
    if q in ("printf", "fprintf", "puts", "fflush", "std::printf", "std::fprintf", "fputs", "putchar"):
        for a in e["args"]:
            ex.ev(a, st, fr)
        return ZERO
    if q in ("Eigen::DenseBase::Zero", "Eigen::DenseBase::Ones", "Eigen::DenseBase::Constant"):
        args = [rvt(ex, st, a) for a in evargs(ex, e, st, fr)]
        c = ZERO if q.endswith("Zero") else ONE if q.endswith("Ones") else args.pop()
        if args:  # a vector of run-time size
            if len(args) > 1:
                raise Unsupported("Eigen matrix expression")
            return SV(DYN, {("#size",): args[0], ("[]",): c})
        return Vec([c] * fixed_size(e, fr))
    if q in ("std::make_unique", "std::make_shared"):
        t = ta_type(e, fr)
        args = evargs(ex, e, st, fr)
        r = ex.newroot("heap")
        ex.heap[r] = t
        lv = LV(r, (), (), t)
        construct_from(ex, st, lv, args, t)
        rt = noref(fr.types[e["t"]])
        return SV(rt, {("#ptr",): tm.app("&" + r, (), "O")})
    if q == "std::tie":
        vs = [ex.ev(x, st, fr) for x in e["args"]]
        if not all(isinstance(x, LV) for x in vs):
            raise Unsupported("std::tie of values")
        return Tie(vs)
    if q in ("std::make_pair", "std::make_tuple"):
        rt = noref(fr.types[e["t"]])
        lv = ex.tmp(rt)
        construct_from(ex, st, lv, evargs(ex, e, st, fr), rt)
        return lv
    if q == "std::to_string":
        v = rvt(ex, st, ex.ev(e["args"][0], st, fr))
        t = noref(ex.etype(e["args"][0], fr))
        if t["c"] == "flt":
            return tm.app("to_string_f", (v,), "S")
        return tm.app_s("to_string", (v,), "S")
    if q in ("std::setw", "std::setfill", "std::setprecision"):
        return Manip(base, rvt(ex, st, ex.ev(e["args"][0], st, fr)))
    if q == "std::put_time":
        return Manip("nop")
    if q in ("std::begin", "std::cbegin", "std::ranges::begin"):
        return It(container(ex, st, ex.ev(e["args"][0], st, fr)), ZERO)
    if q in ("std::end", "std::cend", "std::ranges::end"):
        c = container(ex, st, ex.ev(e["args"][0], st, fr))
        return It(c, vsize(ex, st, c))
    if q in ("std::size", "std::ssize"):
        c = container(ex, st, ex.ev(e["args"][0], st, fr))
        return vsize(ex, st, c)
    if q in ("std::distance",):
        a, b = [ex.rv(st, x) for x in evargs(ex, e, st, fr)]
        return ex.it_arith("-", b, a)
    if q in ("std::next", "std::prev"):
        a = evargs(ex, e, st, fr)
        d = rvt(ex, st, a[1]) if len(a) > 1 else ONE
        return ex.it_arith("+" if base == "next" else "-", ex.rv(st, a[0]), d)
    if q == "std::sort":
        return sort_(ex, e, st, fr)
    if q in ("std::fill", "std::for_each", "std::any_of", "std::all_of", "std::none_of", "std::accumulate", "std::count_if",
             "std::transform", "std::iota", "std::fill_n", "std::copy", "std::find_if", "std::replace_if"):
        return algo(ex, base, e, st, fr)
    if q in ("Eigen::GenericNumTraits::epsilon", "std::numeric_limits::epsilon") and noref(fr.types[e["t"]]) == DBL:
        return num(Fraction(1, 2 ** 52))
    if q == "__assert_fail":
        raise Dead()
    h = getattr(ex, "libhook", None)
    if h:
        r = h(ex, "call", q, e, None, st, fr)
        if r is not None:
            return r
    from . import iolib
    r = iolib.call(ex, q, e, st, fr)
    if r is not None:
        return r
    raise Unsupported("library function " + q + " at " + ex.where(e))


def ta_type(e, fr):
    ta = e.get("ta")
    if not ta:
        raise Unsupported("template argument")
    t = ta[0]
    return fr.types[t] if isinstance(t, int) else t


def fixed_size(e, fr):
    t = noref(fr.types[e["t"]])
    a = t.get("a", [])
    for x in a:
        pass
    if is_eigen_vec(t):
        return t["a"][1]
    # CwiseNullaryOp<..., Matrix<double,n,1>>
    for x in a:
        if isinstance(x, dict) and is_eigen_vec(x):
            return x["a"][1]
    raise Unsupported("Eigen expression of unknown size")


def sort_(ex, e, st, fr):
    a = [ex.rv(st, x) for x in evargs(ex, e, st, fr)]
    if len(a) != 2 or not isinstance(a[0], It):
        raise Unsupported("std::sort")
    c, i, j = a[0].lv, a[0].i, a[1].i
    if not (tm.isnum(i) and tm.isnum(j)):
        raise Unsupported("std::sort of a symbolic range")
    i, j = int(tm.cval(i)), int(tm.cval(j))
    if j - i > 4:
        raise Unsupported("std::sort of a long range")
    et = elty(c)
    xs = [rvt(ex, st, c.elem(num(k), et)) for k in range(i, j)]
    for p in range(len(xs)):
        for r in range(len(xs) - 1 - p):
            lo, hi = tm.min_(xs[r], xs[r + 1]), tm.max_(xs[r], xs[r + 1])
            xs[r], xs[r + 1] = lo, hi
    for k, x in enumerate(xs):
        ex.store(st, c.elem(num(i + k), et), x)
    return VOID


def ptr_it(p):
    """a pointer to an element as a position in its array"""
    if p.lv.path and p.lv.path[-1] == "[]" and p.lv.idxs:
        return It(LV(p.lv.root, p.lv.path[:-1], p.lv.idxs[:-1], {"c": "rec", "n": "std::vector", "a": [noref(p.lv.ty)]}), p.lv.idxs[-1])
    return p


def algo(ex, base, e, st, fr):
    """algorithms over an iterator range, executed as the loop they stand for"""
    args = [ex.ev(x, st, fr) for x in e["args"]]
    a = [x if isinstance(x, (Closure, FnRef)) else ex.rv(st, x) for x in args]
    a = [ptr_it(x) if isinstance(x, Ptr) else x for x in a]
    if not isinstance(a[0], It):
        raise Unsupported("std::" + base)
    c = a[0].lv
    lo = a[0].i
    if base == "fill_n":
        hi = tm.add(lo, a[1])
    else:
        hi = a[1].i
    et = elty(c)
    idx = LV(ex.newroot("idx"), (), (), {"c": "int", "w": 64, "s": True})
    ex.store(st, idx, lo)

    def callf(f, args, S):
        if isinstance(f, Closure):
            return ex.call_closure(f, args, S)
        if isinstance(f, FnRef):
            fn = ex.prog.functions.get(f.info["f"]["key"] if "f" in f.info else f.info.get("key"))
            if fn:
                return ex.call_fn(fn, None, args, S)
        if isinstance(f, LV) and ex.prog.records.get(recname(f.ty)):
            pass
        raise Unsupported("callable passed to std::" + base)

    acc = None
    at = DBL
    if base in ("accumulate", "count_if", "any_of", "all_of", "none_of"):
        rt = noref(fr.types[e["t"]])
        acc = LV(ex.newroot("acc"), (), (), rt)
        ex.store(st, acc, {"accumulate": lambda: a[2], "count_if": lambda: ZERO, "any_of": lambda: FALSE,
                           "all_of": lambda: TRUE, "none_of": lambda: TRUE}[base]())
    out = None
    if base in ("transform", "copy"):
        out = a[2]
        off = tm.sub(out.i, lo)
    if base == "find_if":
        raise Unsupported("std::find_if")

    def body(S):
        i = ex.rv(S, idx)
        el = c.elem(i, et)
        if base == "fill":
            ex.store(S, el, args[2])
        elif base == "fill_n":
            ex.store(S, el, args[2])
        elif base == "iota":
            ex.store(S, el, tm.add(a[2], tm.sub(i, lo)))
        elif base == "for_each":
            callf(args[2], [el], S)
        elif base == "replace_if":
            b = ex.conv(rvt(ex, S, callf(args[2], [el], S)), "B")
            A, B = S.copy().assume(b), S.copy().assume(tm.not_(b))
            ex.store(A, el, args[3])
            M, _ = ex.merge(A, B)
            S.assign(M)
        elif base == "accumulate":
            x = ex.rv(S, acc)
            if len(args) > 3:
                r = callf(args[3], [x if isinstance(x, (T, Vec)) else acc, el], S)
            else:
                r = ex.arith("+", x, ex.rv(S, el), noref(acc.ty), S, e)
            ex.store(S, acc, r)
        elif base in ("count_if", "any_of", "all_of", "none_of"):
            b = ex.conv(rvt(ex, S, callf(args[2], [el], S)), "B")
            x = ex.rv(S, acc)
            ex.store(S, acc, {"count_if": lambda: tm.add(x, tm.ite(b, ONE, ZERO)), "any_of": lambda: tm.or_(x, b),
                              "all_of": lambda: tm.and_(x, b), "none_of": lambda: tm.and_(x, tm.not_(b))}[base]())
        elif base in ("transform", "copy"):
            r = callf(args[3], [el], S) if base == "transform" else el
            ex.store(S, out.lv.elem(tm.add(i, off), elty(out.lv)), r)
        return {"n": (S, VOID)}

    r = ex.loop(st.copy(), lambda S: tm.lt(ex.rv(S, idx), hi), body, lambda S: ex.incdec(idx, "++", False, S), e)
    if "n" not in r:
        raise Dead()
    st.assign(r["n"][0])
    return ex.rv(st, acc) if acc is not None else VOID


# ------------------------------------------------------------------ methods
def mcall(ex, q, e, obj, st, fr):
    use(ex, q)
    cls, name = q.rsplit("::", 1)
    if isinstance(obj, Moved):
        obj = obj.lv
    if isinstance(obj, LV) and recname(obj.ty) in SOLVERS:
        r = solver_method(ex, name, e, obj, st, fr)
        if r is not None:
            return r
    if cls.startswith("Eigen::"):
        single(e, name)
        r = eigen_method(ex, cls, name, e, obj, st, fr)
        if r is not None:
            return r
    if cls in ("std::vector", "std::array", "std::deque", "std::list", "std::initializer_list", "std::span"):
        r = vector_method(ex, name, e, obj, st, fr)
        if r is not None:
            return r
    if cls in ("std::unordered_map", "std::map", "std::set", "std::unordered_set"):
        r = map_method(ex, name, e, obj, st, fr)
        if r is not None:
            return r
    if cls in ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr"):
        if name == "get":
            return ex.read_leaf(st, obj, ("#ptr",), "O")
        if name == "reset":
            a = evargs(ex, e, st, fr)
            v = ex.rv(st, a[0]) if a else NULL
            ex.write_leaf(st, obj, ("#ptr",), "O", v)
            return VOID
        if name == "release":
            v = ex.read_leaf(st, obj, ("#ptr",), "O")
            ex.write_leaf(st, obj, ("#ptr",), "O", NULL)
            return v
        if name == "operator bool":
            return tm.not_(tm.eq(ex.read_leaf(st, obj, ("#ptr",), "O"), NULL))
    if cls == "std::optional":
        if name in ("has_value", "operator bool"):
            return ex.read_leaf(st, obj, ("#has",), "B")
        if name == "value":
            return obj.field("#val", ty=noref(obj.ty)["a"][0])
        if name == "value_or":
            d = ex.evr(e["args"][0], st, fr)
            return ex.merge_vals(st, st, ex.read_leaf(st, obj, ("#has",), "B"), ex.rv(st, obj.field("#val", ty=noref(obj.ty)["a"][0])), d)
        if name == "reset":
            ex.write_leaf(st, obj, ("#has",), "B", FALSE)
            return VOID
    h = getattr(ex, "libhook", None)
    if h:
        r = h(ex, "mcall", q, e, obj, st, fr)
        if r is not None:
            return r
    from . import iolib
    r = iolib.mcall(ex, cls, name, e, obj, st, fr)
    if r is not None:
        return r
    raise Unsupported("library method " + q + " at " + ex.where(e))


def comp(ex, obj, i, st):
    if isinstance(obj, LV) and is_eigen_vec(noref(obj.ty)):
        return LV(obj.root, obj.path + (str(i),), obj.idxs, DBL)
    v = ex.rv(st, obj)
    if isinstance(v, Vec):
        return v.c[i]
    raise Unsupported("component of " + type(v).__name__)


DYN = {"c": "rec", "n": "Eigen::Matrix", "a": [DBL, -1, 1]}


def solver_method(ex, name, e, obj, st, fr):
    """sparse linear solvers: an unknown solution and an unknown status per call; the system handed over is recorded"""
    if name in ("compute", "factorize", "analyzePattern"):
        a = ex.ev(e["args"][0], st, fr)
        if not isinstance(a, LV) or recname(a.ty) != "Eigen::SparseMatrix":
            return None
        for leaf, s in (("#rows", "I"), ("#cols", "I"), ("#triplets", "X")):
            ex.write_leaf(st, obj, (leaf,), s, ex.read_leaf(st, a, (leaf,), s))
        ex.write_leaf(st, obj, ("#status",), "I", tm.fresh("linsys.compute_status", "I"))
        return obj
    if name in ("solve", "solveWithGuess"):
        b = ex.ev(e["args"][0], st, fr)
        if not isinstance(b, LV) or not is_dynvec(noref(b.ty)):
            return None
        sol = tm.fresh("linsys.solution", "R", (arg(0),))
        status = tm.fresh("linsys.status", "I")
        A = [ex.read_leaf(st, obj, (leaf,), s) for leaf, s in (("#rows", "I"), ("#cols", "I"), ("#triplets", "X"))]
        rec = {"A": A, "b": ex.read_leaf(st, b, ("[]",), "R"), "n": ex.read_leaf(st, b, ("#size",), "I"), "sol": sol, "status": status, "pc": list(st.pc)}
        ex.solves = getattr(ex, "solves", []) + [rec]
        ex.write_leaf(st, obj, ("#status",), "I", status)
        return SV(DYN, {("#size",): A[1], ("[]",): sol})
    if name == "info":
        return ex.read_leaf(st, obj, ("#status",), "I")
    if name in ("setTolerance", "setMaxIterations"):
        a = evargs(ex, e, st, fr)
        if name == "setTolerance":
            ex.tolerances = getattr(ex, "tolerances", []) + [(list(st.pc), rvt(ex, st, a[0]))]
        return obj
    if name in ("iterations", "error", "tolerance", "maxIterations"):
        return tm.fresh("linsys." + name, "R" if name in ("error", "tolerance") else "I")
    return None


def eigen_method(ex, cls, name, e, obj, st, fr):
    if name in "xyz" and len(name) == 1:
        return comp(ex, obj, "xyz".index(name), st)
    if isinstance(obj, LV) and is_dynvec(noref(obj.ty)):
        if name in ("size", "rows"):
            return ex.read_leaf(st, obj, ("#size",), "I")
        if name == "resize":
            resize(ex, st, obj, rvt(ex, st, ex.ev(e["args"][0], st, fr)))
            return VOID
        if name in ("data", "begin", "cbegin"):
            return Ptr(obj.elem(ZERO, DBL))
        if name in ("end", "cend"):
            return Ptr(obj.elem(ex.read_leaf(st, obj, ("#size",), "I"), DBL))
        if name == "setZero":
            if e["args"]:
                resize(ex, st, obj, rvt(ex, st, ex.ev(e["args"][0], st, fr)))
            ex.write_leaf(st, obj, ("[]",), "R", ZERO)
            return obj
        if name in ("setConstant", "fill"):
            args = [rvt(ex, st, a) for a in evargs(ex, e, st, fr)]
            if len(args) > 1:
                resize(ex, st, obj, args[0])
            ex.write_leaf(st, obj, ("[]",), "R", args[-1])
            return obj
        if name in ("operator()", "coeffRef", "coeff"):
            i = rvt(ex, st, ex.ev(e["args"][0], st, fr))
            return ex.elem(st, obj, i, e)
        return None
    if isinstance(obj, LV) and recname(obj.ty) == "Eigen::SparseMatrix":
        if name == "resize":
            r, c = [rvt(ex, st, x) for x in evargs(ex, e, st, fr)]
            ex.write_leaf(st, obj, ("#rows",), "I", r)
            ex.write_leaf(st, obj, ("#cols",), "I", c)
            ex.write_leaf(st, obj, ("#triplets",), "X", tm.NIL)
            return VOID
        if name == "setFromTriplets":
            a, b = [ex.rv(st, x) for x in evargs(ex, e, st, fr)]
            if not isinstance(a, It) or a.i is not ZERO or b.i is not vsize(ex, st, a.lv):
                raise Unsupported("setFromTriplets over part of a container")
            ex.write_leaf(st, obj, ("#triplets",), "X", stream_of(ex, st, a.lv))
            return VOID
        if name == "setZero":
            ex.write_leaf(st, obj, ("#triplets",), "X", tm.NIL)
            return VOID
        if name in ("rows", "cols"):
            return ex.read_leaf(st, obj, ("#" + name,), "I")
        return None
    h = getattr(ex, "libhook", None)
    if name in ("compute", "solve", "info", "iterations", "error", "setTolerance", "setMaxIterations"):
        return None
    if name in ("row", "col", "value") and isinstance(obj, LV) and recname(obj.ty) == "Eigen::Triplet":
        n2 = {"row": "row", "col": "col", "value": "val"}[name]
        return ex.read_leaf(st, obj, (n2,), "R" if n2 == "val" else "I")
    # fixed-size vectors
    v = ex.rv(st, obj)
    if not isinstance(v, Vec):
        return None
    if name == "data" and isinstance(obj, LV):
        p = Ptr(LV(obj.root, obj.path + ("0",), obj.idxs, {"c": "flt", "w": 64}))
        p.vec = obj
        return p
    if name == "squaredNorm":
        return squared(v)
    if name in ("norm", "stableNorm"):
        return tm.sqrt(squared(v))
    if name == "normalized":
        z = squared(v)
        return Vec([tm.ite(tm.lt(ZERO, z), tm.div(x, tm.sqrt(z)), x) for x in v.c])
    if name == "normalize":
        z = squared(v)
        ex.store(st, obj, Vec([tm.ite(tm.lt(ZERO, z), tm.div(x, tm.sqrt(z)), x) for x in v.c]))
        return VOID
    if name == "dot":
        w = vecval(ex, st, ex.ev(e["args"][0], st, fr))
        return tm.add(*[tm.mul(x, y) for x, y in zip(v.c, w.c)])
    if name == "cross":
        w = vecval(ex, st, ex.ev(e["args"][0], st, fr))
        a, b = v.c, w.c
        return Vec([tm.sub(tm.mul(a[1], b[2]), tm.mul(a[2], b[1])), tm.sub(tm.mul(a[2], b[0]), tm.mul(a[0], b[2])),
                    tm.sub(tm.mul(a[0], b[1]), tm.mul(a[1], b[0]))])
    if name == "setZero":
        ex.store(st, obj, Vec([ZERO] * len(v.c)))
        return obj
    if name in ("setConstant", "fill"):
        ex.store(st, obj, Vec([rvt(ex, st, ex.ev(e["args"][0], st, fr))] * len(v.c)))
        return obj
    if name == "cast":
        op = noref(ex.etype(e, fr))
        op = op.get("a", [{}])[0] if op.get("n") == "Eigen::CwiseUnaryOp" else {}
        a = op.get("a", []) if isinstance(op, dict) else []
        if len(a) != 2 or any(x.get("c") != "flt" for x in a):
            return None
        return Vec([rounded(x, a[1]["w"]) if a[1]["w"] < a[0]["w"] else x for x in v.c])
    if name in ("array", "matrix", "eval", "noalias", "transpose", "head", "derived", "real"):
        if e["args"]:
            return None
        return obj if isinstance(obj, LV) else v
    if name in ("abs", "cwiseAbs"):
        return Vec([tm.abs_(x) for x in v.c])
    if name == "square":
        return Vec([tm.mul(x, x) for x in v.c])
    if name == "sum":
        return tm.add(*v.c)
    if name == "prod":
        return tm.mul(*v.c)
    if name in ("maxCoeff", "minCoeff") and not e["args"]:
        r = v.c[0]
        for x in v.c[1:]:
            r = tm.max_(r, x) if name == "maxCoeff" else tm.min_(r, x)
        return r
    if name in ("max", "min", "cwiseMax", "cwiseMin"):
        f = tm.max_ if "ax" in name else tm.min_
        w = ex.evr(e["args"][0], st, fr)
        return Vec([f(x, w.c[i] if isinstance(w, Vec) else w) for i, x in enumerate(v.c)])
    if name in ("cwiseProduct", "cwiseQuotient"):
        w = vecval(ex, st, ex.ev(e["args"][0], st, fr))
        return ex.vec_arith("*" if name == "cwiseProduct" else "/", v, w, st, e)
    if name in ("size", "rows"):
        return num(len(v.c))
    if name in ("operator()", "coeff", "coeffRef"):
        i = rvt(ex, st, ex.ev(e["args"][0], st, fr))
        if tm.isnum(i):
            return comp(ex, obj, int(tm.cval(i)), st)
    if name == "isZero":
        return None
    if name == "allFinite":
        return tm.not_(ex.nan_of(*v.c))
    if name == "hasNaN":
        return ex.nan_of(*v.c)
    return None


def vector_method(ex, name, e, obj, st, fr):
    c = container(ex, st, obj)
    if name in ("size", "length"):
        return vsize(ex, st, c)
    if name == "empty":
        return tm.eq(vsize(ex, st, c), ZERO)
    if name in ("begin", "cbegin"):
        return It(c, ZERO)
    if name in ("end", "cend"):
        return It(c, vsize(ex, st, c))
    if name in ("at", "operator[]"):
        i = rvt(ex, st, ex.ev(e["args"][0], st, fr))
        return ex.elem(st, c, i, e)
    if name == "front":
        return ex.elem(st, c, ZERO, e)
    if name == "back":
        return ex.elem(st, c, tm.sub(vsize(ex, st, c), ONE), e)
    if name in ("push_back", "emplace_back"):
        a = evargs(ex, e, st, fr)
        a = [x if isinstance(x, (Moved, LV)) else x for x in a]
        a = [ex.rv(st, x) if isinstance(x, LV) and ex.scalar_sort(noref(x.ty)) is not None else x for x in a]
        return push(ex, st, c, lambda lv: construct_from(ex, st, lv, a, elty(c)))
    if name == "pop_back":
        ex.write_leaf(st, c, ("#size",), "I", tm.sub(vsize(ex, st, c), ONE))
        ex.write_leaf(st, c, ("#stream",), "X", tm.fresh("stream", "X"))
        return VOID
    if name == "clear":
        clear(ex, st, c)
        return VOID
    if name in ("reserve", "shrink_to_fit"):
        evargs(ex, e, st, fr)
        return VOID
    if name == "resize":
        a = evargs(ex, e, st, fr)
        resize(ex, st, c, rvt(ex, st, a[0]), a[1] if len(a) > 1 else None)
        return VOID
    if name == "assign":
        a = evargs(ex, e, st, fr)
        n = ex.rv(st, a[0])
        if len(a) == 2 and isinstance(n, T):
            clear(ex, st, c)
            resize(ex, st, c, n, a[1])
            return VOID
        if len(a) == 2 and isinstance(n, (It, Ptr)):
            n, b = [ptr_it(x) if isinstance(x, Ptr) else x for x in (n, ex.rv(st, a[1]))]
            if isinstance(n, It) and isinstance(b, It) and n.lv.root != c.root:
                copy_range(ex, st, c, n.lv.root, n.lv.path, n.lv.idxs, n.i, tm.sub(b.i, n.i))
                return VOID
        return None
    if name == "fill":
        a = evargs(ex, e, st, fr)
        v = rvt(ex, st, a[0])
        ex.write_leaf(st, c, ("[]",), ex.scalar_sort(elty(c)), v)
        return VOID
    if name == "data":
        return Ptr(c.elem(ZERO, elty(c)))
    if name == "swap":
        o = container(ex, st, ex.ev(e["args"][0], st, fr))
        x, y = ex.rv(st, c), ex.rv(st, o)
        ex.store(st, c, y)
        ex.store(st, o, x)
        return VOID
    return None


def map_method(ex, name, e, obj, st, fr):
    m = container(ex, st, obj)
    if name == "find":
        return MapIt(m, rvt(ex, st, ex.ev(e["args"][0], st, fr)))
    if name in ("end", "cend"):
        return MapIt(m, None)
    if name in ("count", "contains"):
        k = rvt(ex, st, ex.ev(e["args"][0], st, fr))
        h = map_has(ex, st, m, k)
        return h if name == "contains" else tm.ite(h, ONE, ZERO)
    if name == "at":
        k = rvt(ex, st, ex.ev(e["args"][0], st, fr))
        ex.oblige("map-at", st, map_has(ex, st, m, k), ex.where(e), "key present")
        return map_val_lv(m, k)
    if name == "clear":
        for rel, s in ex.leaves(noref(m.ty)):
            if rel[0] == "#has":
                ex.write_leaf(st, m, rel, s, FALSE)
        return VOID
    if name in ("insert_or_assign", "emplace", "try_emplace", "insert"):
        a = evargs(ex, e, st, fr)
        if len(noref(m.ty)["a"]) and recname(m.ty) in ("std::set", "std::unordered_set"):
            map_set_has(ex, st, m, rvt(ex, st, a[0]))
            return VOID
        if len(a) == 1:
            p = container(ex, st, a[0])
            k, v = rvt(ex, st, p.field("first", ty=INT)), ex.rv(st, p.field("second", ty=noref(m.ty)["a"][1]))
        elif len(a) == 2:
            k, v = rvt(ex, st, a[0]), ex.rv(st, a[1])
        else:
            return None
        if name == "insert_or_assign":
            ex.store(st, map_val_lv(m, k), v)
        else:
            h = map_has(ex, st, m, k)
            old = ex.rv(st, map_val_lv(m, k))
            ex.store(st, map_val_lv(m, k), ex.merge_vals(st, st, h, old, v))
        map_set_has(ex, st, m, k)
        return VOID
    if name == "erase":
        a = evargs(ex, e, st, fr)
        k = a[0].key if isinstance(a[0], MapIt) else rvt(ex, st, a[0])
        map_set_has(ex, st, m, k, FALSE)
        return VOID
    if name == "operator[]":
        return map_index(ex, st, m, rvt(ex, st, ex.ev(e["args"][0], st, fr)))
    if name == "reserve":
        return VOID
    return None


def map_index(ex, st, m, k):
    h = map_has(ex, st, m, k)
    lv = map_val_lv(m, k)
    if h is not TRUE:
        ex.store(st, lv, ex.merge_vals(st, st, h, ex.rv(st, lv), ex.zero_value(lv.ty)))
        map_set_has(ex, st, m, k)
    return lv


# ------------------------------------------------------------------ operators
def is_ostream(t):
    n = recname(t)
    return n is not None and n in ("std::basic_ostream", "std::basic_ofstream", "std::basic_stringstream", "std::basic_ostringstream", "std::basic_fstream", "std::basic_iostream")


def single(e, name):
    """arithmetic of Eigen objects in single precision is not modelled"""
    q = (e.get("f") or {}).get("q", "")
    if "<float" in q and name not in ("cast", "x", "y", "z", "w", "operator[]", "operator()", "coeff", "coeffRef", "rows", "cols", "size", "data"):
        raise Unsupported(f"single-precision {q[:80]}")


def opcall(ex, op, e, st, fr):
    args = e["args"]
    f = e.get("f")
    if f and f["q"].startswith("Eigen::"):
        single(e, f["q"].rsplit("::", 1)[-1] if op not in ("=", "[]", "()") else "cast")
    if f:
        use(ex, strip_templates(f["q"]))
    if op == "<<":
        t0 = ex.etype(args[0], fr)
        if is_ostream(t0) or (f and strip_templates(f["q"]).startswith(("std::basic_ostream::", "std::operator<<", "std::filesystem::operator<<"))):
            os = ex.ev(args[0], st, fr)
            a = args[1]
            if a["k"] == "fnref" or (a["k"] == "cast" and a["e"]["k"] == "fnref"):
                nm = strip_templates((a if a["k"] == "fnref" else a["e"])["f"]["q"] if "f" in (a if a["k"] == "fnref" else a["e"]) else a.get("q", ""))
                b = nm.rsplit("::", 1)[-1]
                return os_put(ex, st, os, Manip({"endl": "endl", "flush": "nop", "fixed": "fixed", "scientific": "scientific", "defaultfloat": "", "boolalpha": "boolalpha"}.get(b, "?" + b)), None)
            v = ex.ev(a, st, fr)
            if isinstance(v, FnRef):
                b = strip_templates(v.info.get("q", v.info.get("f", {}).get("q", ""))).rsplit("::", 1)[-1]
                return os_put(ex, st, os, Manip({"endl": "endl", "flush": "nop", "fixed": "fixed", "scientific": "scientific"}.get(b, "?" + b)), None)
            return os_put(ex, st, os, v, ex.etype(a, fr))
        if f and f["q"].startswith("Eigen::"):
            lv = ex.ev(args[0], st, fr)
            v = ex.evr(args[1], st, fr)
            return comma_start(ex, st, lv, v)
        if f and f["q"].startswith("argparse"):
            return ex.ev(args[0], st, fr)
    if op == "," and f and f["q"].startswith("Eigen::"):
        c = ex.ev(args[0], st, fr)
        v = ex.evr(args[1], st, fr)
        if isinstance(c, Comma):
            return c.put(ex, st, v)
        raise Unsupported("comma initializer")
    vals = [ex.ev(a, st, fr) for a in args]
    a = vals[0]
    if op == "=":
        lv, v = vals
        if isinstance(v, Closure):
            raise Unsupported("assignment of closure")
        if isinstance(lv, Tie):
            if isinstance(v, Moved):
                v = v.lv
            if not isinstance(v, LV):
                v = ex.materialize(st, v, noref(ex.etype(args[1], fr)))
            vt = noref(v.ty)
            names = ("first", "second") if recname(vt) == "std::pair" else [f"e{k}" for k in range(len(lv.lvs))]
            for x, nm, ft in zip(lv.lvs, names, vt["a"]):
                ex.store(st, x, ex.rv(st, v.field(nm, ty=ft)))
            return lv
        lt = noref(lv.ty) if isinstance(lv, LV) else {}
        if isinstance(v, LV) and lt.get("c") == "rec" and recname(lt) in ("std::unique_ptr",) and not isinstance(v, Moved):
            v = Moved(v)
        if isinstance(v, T) and v.sort == "O" and recname(lt) in ("std::unique_ptr", "std::shared_ptr"):
            ex.write_leaf(st, lv, ("#ptr",), "O", v)
            return lv
        if recname(lt) == "std::unordered_map" and isinstance(v, LV):
            v = ex.rv(st, v)
        if is_stdvec(lt) and isinstance(v, LV) and not isinstance(v, Moved):
            v = ex.rv(st, v)
        h = getattr(ex, "libhook", None)
        if h:
            r = h(ex, "op=", None, e, vals, st, fr)
            if r is not None:
                return r
        ex.store(st, lv, v)
        return lv
    if op == "[]":
        t = noref(ex.etype(args[0], fr))
        n = recname(t)
        if isinstance(a, Moved):
            a = a.lv
        if n in ("std::unordered_map", "std::map"):
            return map_index(ex, st, container(ex, st, a), rvt(ex, st, vals[1]))
        if n == "YAML::Node" or (isinstance(a, T) and a.sort.startswith("U:YAML")):
            from . import iolib
            return iolib.yaml_index(ex, st, ex.rv(st, a), ex.rv(st, vals[1]))
        i = rvt(ex, st, vals[1])
        if isinstance(a, LV) and is_eigen_vec(noref(a.ty)):
            if not tm.isnum(i):
                raise Unsupported("symbolic component index")
            return comp(ex, a, int(tm.cval(i)), st)
        if isinstance(a, Vec):
            if not tm.isnum(i):
                raise Unsupported("symbolic component index")
            return a.c[int(tm.cval(i))]
        if isinstance(a, (It, Ptr)):
            return ex.deref(ex.it_arith("+", a, i), st, e)
        b = ex.rv(st, a) if isinstance(a, LV) and st.binds.get(a.key()) else a
        if isinstance(b, It):
            return ex.elem(st, b.lv, tm.add(b.i, i), e)
        if isinstance(a, (LV, SV)):
            return ex.elem(st, container(ex, st, a), i, e)
        raise Unsupported("operator[]")
    if op == "()":
        if isinstance(a, Closure):
            return ex.call_closure(a, vals[1:], st)
        if isinstance(a, LV) and (is_dynvec(noref(a.ty)) or is_eigen_vec(noref(a.ty))):
            return ex.elem(st, a, rvt(ex, st, vals[1]), e)
        raise Unsupported("operator()")
    if op in ("->", "*") and len(vals) == 1:
        v = a if not isinstance(a, LV) else ex.rv(st, a)
        if isinstance(v, MapIt):
            return Ptr(mapit_lv(ex, st, v)) if op == "->" else mapit_lv(ex, st, v)
        if isinstance(v, It):
            el = ex.elem(st, v.lv, v.i, e)
            return Ptr(el) if op == "->" else el
        if isinstance(v, SV) and ("#ptr",) in v.leaves:
            p = v.leaves[("#ptr",)]
            return p if op == "->" else ex.deref(p, st, e)
        if isinstance(v, SV) and ("#has",) in v.leaves and isinstance(a, LV):
            ex.oblige("null", st, v.leaves[("#has",)], ex.where(e), "optional has a value")
            el = a.field("#val", ty=noref(a.ty)["a"][0])
            return Ptr(el) if op == "->" else el
        if isinstance(v, Ptr):
            return v if op == "->" else ex.deref(v, st, e)
    if op in ("++", "--"):
        post = len(vals) > 1 or e.get("post")
        return ex.incdec(a, op, post, st)
    if op in ("==", "!=") and (isinstance(a, MapIt) or isinstance(vals[1], MapIt)):
        x, y = a, vals[1]
        if isinstance(x, MapIt) and isinstance(y, MapIt):
            if x.key is None:
                x, y = y, x
            if y.key is None and x.key is not None:
                h = map_has(ex, st, x.lv, x.key)
                return tm.not_(h) if op == "==" else h
        raise Unsupported("map iterator comparison")
    h = getattr(ex, "libhook", None)
    if h:
        r = h(ex, "op" + op, None, e, vals, st, fr)
        if r is not None:
            return r
    from . import iolib
    r = iolib.opcall(ex, op, e, vals, st, fr)
    if r is not None:
        return r
    if op in ("==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "&", "|"):
        if len(vals) == 2:
            x, y = ex.rv(st, a), ex.rv(st, vals[1])
            if isinstance(x, SV) and ("#ptr",) in x.leaves:
                x = x.leaves[("#ptr",)]
            if isinstance(y, SV) and ("#ptr",) in y.leaves:
                y = y.leaves[("#ptr",)]
            x, y = scal1(x), scal1(y)
            return ex.arith(op, x, y, ex.etype(e, fr), st, e)
        if op == "-":
            x = ex.rv(st, a)
            return Vec([tm.neg(c) for c in x.c]) if isinstance(x, Vec) else tm.neg(x)
    if op in ("+=", "-=", "*=", "/="):
        x, y = ex.rv(st, a), ex.rv(st, vals[1])
        if isinstance(a, LV):
            r = ex.arith(op[0], scal1(x), scal1(y), noref(a.ty), st, e)
            ex.store(st, a, r)
            return a
    if op == "!":
        x = ex.rv(st, a)
        if isinstance(x, SV) and ("#ptr",) in x.leaves:
            return tm.eq(x.leaves[("#ptr",)], NULL)
    raise Unsupported(f"library operator {op} ({f and f['q'][:80]}) at {ex.where(e)}")


def scal1(v):
    if isinstance(v, SV) and len(v.leaves) == 1:
        return next(iter(v.leaves.values()))
    return v


def mapit_lv(ex, st, v):
    t = noref(v.lv.ty)
    pt = {"c": "rec", "n": "std::pair", "a": [t["a"][0], t["a"][1]]}
    lv = ex.tmp(pt)
    ex.store(st, lv.field("first", ty=t["a"][0]), v.key)
    ex.store(st, lv.field("second", ty=t["a"][1]), ex.rv(st, map_val_lv(v.lv, v.key)))
    return lv


class Comma:
    def __init__(self, lv, n):
        self.lv, self.n = lv, n

    def put(self, ex, st, v):
        vs = v.c if isinstance(v, Vec) else [v]
        for x in vs:
            ex.store(st, LV(self.lv.root, self.lv.path + (str(self.n),), self.lv.idxs, DBL), x)
            self.n += 1
        return self


def comma_start(ex, st, lv, v):
    if not isinstance(lv, LV):
        raise Unsupported("comma initializer")
    return Comma(lv, 0).put(ex, st, v)


# ------------------------------------------------------------------ constructors
def ctor(ex, lv, e, st, fr):
    f = e["f"]
    q = strip_templates(f["q"])
    use(ex, q)
    t = noref(lv.ty)
    n = recname(t)
    h = getattr(ex, "libhook", None)
    if h:
        r = h(ex, "ctor", q, e, lv, st, fr)
        if r is not None:
            return r
    if is_eigen_vec(t) or (n and n.startswith("Eigen::") and not e["args"]) or n == "Eigen::Matrix":
        args = [ex.ev(a, st, fr) for a in e["args"]]
        if is_eigen_vec(t):
            if not args:
                ex.lib_default(st, lv)
                return None
            vs = [ex.rv(st, a) for a in args]
            if len(vs) == 1 and isinstance(vs[0], Vec):
                ex.store(st, lv, vs[0])
                return None
            if len(vs) == t["a"][1]:
                ex.store(st, lv, Vec([rvt(ex, st, a) for a in vs]))
                return None
            raise Unsupported("Eigen vector constructor")
        if is_dynvec(t):
            if not args:
                ex.lib_default(st, lv)
                return None
            v = args[0]
            if isinstance(v, LV) and is_dynvec(noref(v.ty)):
                ex.store(st, lv, ex.rv(st, v))
                return None
            if isinstance(v, SV):
                ex.store(st, lv, v)
                return None
            v = ex.rv(st, v)
            if isinstance(v, T) and v.sort == "I":
                ex.lib_default(st, lv)
                resize(ex, st, lv, v)
                return None
            raise Unsupported("VectorXd constructor")
        ex.lib_default(st, lv)
        return None
    if n in SOLVERS and len(e["args"]) == 1:
        a = ex.ev(e["args"][0], st, fr)
        if isinstance(a, LV) and recname(a.ty) == "Eigen::SparseMatrix":
            for leaf, s in (("#rows", "I"), ("#cols", "I"), ("#triplets", "X")):
                ex.write_leaf(st, lv, (leaf,), s, ex.read_leaf(st, a, (leaf,), s))
            ex.write_leaf(st, lv, ("#status",), "I", tm.fresh("linsys.compute_status", "I"))
            return None
    if n == "std::initializer_list" and not e["args"]:
        ex.lib_default(st, lv)
        return None
    if n in ("Eigen::Triplet", "Eigen::SparseMatrix"):
        args = [ex.ev(a, st, fr) for a in e["args"]]
        if len(args) == 1 and isinstance(args[0], (LV, SV, Moved)):
            src = args[0].lv if isinstance(args[0], Moved) else args[0]
            if recname(noref(src.ty)) == n:
                ex.store(st, lv, ex.rv(st, src) if isinstance(src, LV) else src)
                return None
        elif n == "Eigen::Triplet" and len(args) in (2, 3):
            construct_from(ex, st, lv, args + [ZERO] * (3 - len(args)), t)
            return None
        elif n == "Eigen::SparseMatrix" and len(args) == 2:
            ex.write_leaf(st, lv, ("#rows",), "I", rvt(ex, st, args[0]))
            ex.write_leaf(st, lv, ("#cols",), "I", rvt(ex, st, args[1]))
            ex.write_leaf(st, lv, ("#triplets",), "X", tm.NIL)
            return None
        raise Unsupported(n + " constructor at " + ex.where(e))
    if n in ("std::vector",):
        args = [ex.ev(a, st, fr) for a in e["args"] if not is_alloc(a, fr)]
        if not args:
            ex.lib_default(st, lv)
            return None
        a0 = ex.rv(st, args[0]) if not isinstance(args[0], SV) else args[0]
        if isinstance(a0, Ptr):
            b = ex.rv(st, args[1])
            cnt = ex.it_arith_ptr_diff(b, a0) if hasattr(ex, "it_arith_ptr_diff") else tm.sub(b.lv.idxs[-1], a0.lv.idxs[-1])
            copy_range(ex, st, lv, a0.lv.root, a0.lv.path[:-1], a0.lv.idxs[:-1], a0.lv.idxs[-1], cnt)
            return None
        if isinstance(a0, It):
            b = ex.rv(st, args[1])
            copy_range(ex, st, lv, a0.lv.root, a0.lv.path, a0.lv.idxs, a0.i, tm.sub(b.i, a0.i))
            if a0.i is ZERO and b.i is vsize(ex, st, a0.lv) and is_stdvec(noref(a0.lv.ty)):
                ex.write_leaf(st, lv, ("#stream",), "X", stream_of(ex, st, a0.lv))
            return None
        if isinstance(a0, T):
            ex.lib_default(st, lv)
            resize(ex, st, lv, a0, args[1] if len(args) > 1 else None)
            return None
        if isinstance(a0, SV):
            ex.store(st, lv, args[0])
            return None
        raise Unsupported("std::vector constructor")
    if n in ("std::unique_ptr", "std::shared_ptr"):
        args = [ex.ev(a, st, fr) for a in e["args"]]
        if not args:
            ex.write_leaf(st, lv, ("#ptr",), "O", NULL)
            return None
        v = args[0]
        if isinstance(v, (Moved, LV)):
            src = v.lv if isinstance(v, Moved) else v
            r = ex.rv(st, src)
            p = r.leaves[("#ptr",)] if isinstance(r, SV) else r
            ex.write_leaf(st, lv, ("#ptr",), "O", p)
            if isinstance(r, SV) and n == "std::unique_ptr":
                ex.write_leaf(st, src, ("#ptr",), "O", NULL)
            return None
        if isinstance(v, SV):
            ex.write_leaf(st, lv, ("#ptr",), "O", v.leaves[("#ptr",)])
            return None
        ex.write_leaf(st, lv, ("#ptr",), "O", v)
        return None
    if n in ("std::unordered_map", "std::map", "std::set", "std::unordered_set"):
        args = [ex.ev(a, st, fr) for a in e["args"] if not is_alloc(a, fr)]
        if args and isinstance(args[0], (Moved, LV, SV)):
            src = args[0].lv if isinstance(args[0], Moved) else args[0]
            ex.store(st, lv, ex.rv(st, src) if isinstance(src, LV) else src)
            return None
        for rel, s in ex.leaves(t):
            ex.write_leaf(st, lv, rel, s, FALSE if rel[0] == "#has" else tm.fresh("noelem", s, tuple(arg(i) for i in range(rel.count("[]")))))
        return None
    if n in ("std::pair", "std::tuple"):
        args = [ex.ev(a, st, fr) for a in e["args"]]
        if not args:
            ex.store(st, lv, ex.zero_value(t))
            return None
        if len(args) == 1 and isinstance(args[0], (LV, SV)):
            ex.store(st, lv, args[0])
            return None
        construct_from(ex, st, lv, args, t)
        return None
    if n == "std::optional":
        args = [ex.ev(a, st, fr) for a in e["args"]]
        if not args:
            ex.lib_default(st, lv)
            return None
        ex.lib_default(st, lv)
        ex.write_leaf(st, lv, ("#has",), "B", TRUE)
        ex.store(st, lv.field("#val", ty=t["a"][0]), args[0])
        return None
    if n == "std::array":
        ex.lib_default(st, lv)
        return None
    if n in ("std::basic_stringstream", "std::basic_ostringstream"):
        args = [a for a in e["args"] if not (ex.etype(a, fr) and noref(ex.etype(a, fr))["c"] in ("enum", "int"))]
        ex.write_leaf(st, lv, ("#out",), "X", tm.NIL)
        ex.write_leaf(st, lv, ("#fmt",), "F", tm.const("fmt0", "F"))
        ex.write_leaf(st, lv, ("#file",), "S", tm.strc(""))
        if args:
            v = ex.evr(args[0], st, fr)
            ex.write_leaf(st, lv, ("#out",), "X", tm.item("text", v))
        return None
    if n == "std::allocator":
        return None
    if n in ("std::basic_string", "std::basic_string_view"):
        args = [ex.ev(a, st, fr) for a in e["args"] if not is_alloc(a, fr)]
        if not args:
            ex.store(st, lv, tm.strc(""))
            return tm.strc("")
        v = ex.rv(st, args[0])
        if isinstance(v, T) and v.sort == "S" and len(args) == 1:
            ex.store(st, lv, v)
            return v
        raise Unsupported("std::string constructor")
    from . import iolib
    r = iolib.ctor(ex, q, n, lv, e, st, fr)
    if r is not None:
        return r if r is not VOID else None
    raise Unsupported("library constructor " + q + " at " + ex.where(e))


def is_alloc(a, fr):
    t = fr.types[a["t"]] if a.get("t") is not None else None
    n = recname(t) if t else None
    return n == "std::allocator" or a["k"] == "zero" and n == "std::allocator"


def copy_range(ex, st, lv, root, path, idxs, lo, cnt):
    src = LV(root, path, idxs)
    et = elty(lv)
    ex.lib_default(st, lv)
    for rel, s in ex.leaves(et):
        c = ex.read_leaf(st, src, ("[]",) + rel, s)
        ex.write_leaf(st, lv, ("[]",) + rel, s, tm.subst(c, {arg(0): tm.add(arg(0), lo)}) if lo is not ZERO else c)
    ex.write_leaf(st, lv, ("#size",), "I", cnt)
    ex.write_leaf(st, lv, ("#stream",), "X", tm.fresh("stream", "X"))
