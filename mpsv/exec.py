"""Symbolic execution of the extracted functions with loop summarisation (inductive invariants inferred and checked)."""
from fractions import Fraction

from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE, num, arg


class Unsupported(Exception):
    pass


class Dead(Exception):
    """every path of an expression ended in exit/throw"""


MAXUNROLL = 4000
PI = Fraction("3.14159265358979323846")


def unsigned(t):
    t = noref(t) if t else {"c": ""}
    return t["c"] == "int" and not t.get("s") and t.get("w", 32) >= 32


def rounded(v, w):
    """a value rounded to a floating-point type narrower than double: an unknown function of it"""
    return v if tm.isnum(v) else tm.app(f"round{w}", (v,), "R")


def narrowed(v, t):
    """an integer kept in fewer than 32 bits: wraps"""
    t = noref(t)
    if t["c"] != "int" or t.get("w", 32) >= 32 or not isinstance(v, T) or v.sort != "I":
        return v
    w = t["w"]
    if tm.isnum(v):
        x = int(tm.cval(v)) % 2**w
        return num(x - 2**w if t.get("s") and x >= 2 ** (w - 1) else x)
    return tm.app(f"narrow{w}{'s' if t.get('s') else 'u'}", (v,), "I")


def as_type(v, t):
    """a number read from text into an object of scalar type t"""
    t = noref(t)
    if t["c"] == "flt" and t.get("w", 64) < 64:
        return rounded(v, t["w"])
    return narrowed(v, t)


class LV:
    __slots__ = ("root", "path", "idxs", "ty")

    def __init__(self, root, path=(), idxs=(), ty=None):
        self.root, self.path, self.idxs, self.ty = root, tuple(path), tuple(idxs), ty

    def field(self, *names, ty=None):
        return LV(self.root, self.path + names, self.idxs, ty)

    def elem(self, i, ty=None):
        return LV(self.root, self.path + ("[]",), self.idxs + (i,), ty)

    def key(self):
        return (self.root, self.path)

    def __repr__(self):
        it = iter(self.idxs)
        return self.root + "".join(f"[{next(it)}]" if p == "[]" else "." + p for p in self.path)

    def same(self, o):
        return isinstance(o, LV) and self.key() == o.key() and self.idxs == o.idxs


class Vec:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = list(c)

    def __repr__(self):
        return f"Vec{self.c}"


class SV:
    """aggregate value: relative leaf path -> lambda body over #0.. (arity = number of holes in the relative path)"""
    __slots__ = ("ty", "leaves")

    def __init__(self, ty, leaves):
        self.ty, self.leaves = ty, leaves


class Ptr:
    __slots__ = ("lv", "nn", "vec")

    def __init__(self, lv, nn=TRUE):
        self.lv, self.nn, self.vec = lv, nn, None


class It:
    __slots__ = ("lv", "i")

    def __init__(self, lv, i):
        self.lv, self.i = lv, i


class Moved:
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv


class Closure:
    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class MemPtr(Closure):
    """pointer to a data member; carried around like a closure"""

    def __init__(self, name):
        super().__init__(None, None)
        self.name = name


class Manip:
    def __init__(self, kind, a=None):
        self.kind, self.a = kind, a


class FnRef:
    def __init__(self, info):
        self.info = info


VOID = object()


class State:
    __slots__ = ("cells", "pc", "binds")

    def __init__(self):
        self.cells = {}
        self.pc = []
        self.binds = {}

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.pc = list(self.pc)
        s.binds = dict(self.binds)
        return s

    def assign(self, o):
        self.cells, self.pc, self.binds = o.cells, o.pc, o.binds

    def assume(self, c):
        if c is TRUE:
            return self
        for x in c.args if c.op == "and" else (c,):
            if x not in self.pc:
                self.pc.append(x)
        return self


class Frame:
    def __init__(self, types, this=None, parent=None, fn=None):
        self.types, self.this, self.parent, self.fn = types, this, parent, fn
        self.env = {}

    def lookup(self, i):
        f = self
        while f is not None:
            if i in f.env:
                return f.env[i]
            f = f.parent
        return None


class Inv:
    """candidate loop invariant: fn(get(root, path, sort), [K of the enclosing loops, outermost first]) -> Bool or None"""

    def __init__(self, name, keys, fn):
        self.name, self.keys, self.fn = name, keys, fn


class Obl:
    def __init__(self, kind, hyps, goal, where, note=""):
        self.kind, self.hyps, self.goal, self.where, self.note = kind, hyps, goal, where, note


def strip_templates(q):
    out = []
    d = 0
    i = 0
    while i < len(q):
        c = q[i]
        if q.startswith("operator", i):
            j = i + 8
            k = j
            while k < len(q) and q[k] in "<>=!+-*/()[]&|^%~,":
                k += 1
            if k > j and d == 0:
                out.append(q[i:k])
                i = k
                continue
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


def noref(t):
    while t is not None and t.get("c") == "ref":
        t = t["t"]
    return t


def is_eigen_vec(t):
    return t.get("c") == "rec" and t["n"] == "Eigen::Matrix" and t["a"][0].get("c") == "flt" and isinstance(t["a"][1], int) and t["a"][1] > 0 and t["a"][2] == 1


def is_dynvec(t):
    return t.get("c") == "rec" and t["n"] == "Eigen::Matrix" and t["a"][1] == -1 and t["a"][2] == 1


def recname(t):
    t = noref(t)
    return t.get("n") if t and t.get("c") == "rec" else None


def is_stdvec(t):
    return recname(t) in ("std::vector", "std::initializer_list", "std::array", "std::deque", "std::list", "std::span")


SOLVERS = {"Eigen::" + x for x in ("BiCGSTAB", "LeastSquaresConjugateGradient", "SparseLU", "SparseQR",
                                  "GMRES", "DGMRES", "IDRS", "BiCGSTABL")}  # those that need no symmetric matrix

SCAL = {"flt": "R", "int": "I", "enum": "I", "bool": "B"}


class Exec:
    def __init__(self, prog, prover=None):
        self.prog = prog
        self.prover = prover
        self.obls = []
        self.exits = []
        self.nroot = 0
        self.overrides = {("#fs", ("log",)): tm.NIL, ("#fs", ("epoch",)): ZERO}  # (root, path) -> lambda body for the initial content
        self.ext = {}  # stripped qualified name -> handler(ex, node, obj, args, st)
        self.virtual = {}  # qualified interface method -> handler
        self.symname = {}  # (root,path) -> symbol name
        self.inlined = set()
        self.loops = []
        self.heap = {}
        self.depth = 0
        self.lcache = {}
        self.stack = []
        self.assumed = set()
        self.events = None
        self.noobl = False
        self.omp_hook = None
        self.norunroll = None  # loop statement that is always summarised, and
        self.on_summary = None  # the function told about its arbitrary iteration
        self.loop_hook = None
        self.files = {}  # contents of input files (iolib), by path
        self.loopspecs = []
        self.nonneg = set()
        self.invariants = None  # fn(ex, summary) -> list of Inv
        self.loop_ks = []
        self.invlog = []

    # ------------------------------------------------------------------ types
    def ty(self, fr, i):
        return fr.types[i] if isinstance(i, int) else i

    def fields(self, recq):
        r = self.prog.records.get(recq)
        if r is None:
            return None
        out = []
        for b in r["bases"]:
            bt = r["types"][b]
            out += self.fields(bt["n"]) or []
        out += [(f["n"], r["types"][f["t"]], f, r) for f in r["fields"]]
        return out

    def derives(self, a, b):
        if a == b:
            return True
        r = self.prog.records.get(a)
        return bool(r) and any(self.derives(r["types"][x]["n"], b) for x in r["bases"])

    def leaves(self, t):
        """[(relative path, sort)]"""
        t = noref(t)
        k = repr(t)
        if k in self.lcache:
            return self.lcache[k]
        self.lcache[k] = r = self._leaves(t)
        return r

    def _leaves(self, t):
        c = t["c"]
        if c in SCAL:
            return [((), SCAL[c])]
        if c == "rec":
            n = t["n"]
            if is_eigen_vec(t):
                return [((str(i),), "R") for i in range(t["a"][1])]
            if is_dynvec(t):
                return [(("#size",), "I"), (("[]",), "R")]
            if n == "std::vector" or n == "std::initializer_list" or n == "std::deque" or n == "std::list":
                el = self.leaves(t["a"][0])
                return [(("#size",), "I"), (("#stream",), "X")] + [(("[]",) + p, s) for p, s in el]
            if n == "std::array":
                return [(("[]",) + p, s) for p, s in self.leaves(t["a"][0])]
            if n == "std::pair" or n == "std::tuple":
                args = t["a"]
                if args and isinstance(args[0], list):
                    args = args[0]
                names = ["first", "second"] if n == "std::pair" else [f"e{i}" for i in range(len(args))]
                return [((nm,) + p, s) for nm, a in zip(names, args) for p, s in self.leaves(a)]
            if n == "std::optional":
                return [(("#has",), "B")] + [(("#val",) + p, s) for p, s in self.leaves(t["a"][0])]
            if n in ("std::unordered_map", "std::map") and t["a"][0].get("c") in ("int", "enum"):
                return [(("#has", "[]"), "B")] + [(("#val", "[]") + p, s) for p, s in self.leaves(t["a"][1])]
            if n in ("std::set", "std::unordered_set") and t["a"][0].get("c") in ("int", "enum"):
                return [(("#has", "[]"), "B")]
            if n in ("std::unique_ptr", "std::shared_ptr"):
                return [(("#ptr",), "O")]
            if n in ("std::basic_string", "std::filesystem::path", "std::filesystem::__cxx11::path", "std::basic_string_view"):
                return [((), "S")]
            if n == "std::fpos":
                return [((), "I")]
            if n == "Eigen::Triplet":
                return [(("row",), "I"), (("col",), "I"), (("val",), "R")]
            if n == "Eigen::SparseMatrix":
                return [(("#rows",), "I"), (("#cols",), "I"), (("#triplets",), "X")]
            if n in SOLVERS:
                return [(("#rows",), "I"), (("#cols",), "I"), (("#triplets",), "X"), (("#status",), "I")]
            if n in ("std::basic_ofstream", "std::basic_stringstream", "std::basic_ostringstream", "std::basic_ostream", "std::basic_fstream"):
                return [(("#out",), "X"), (("#fmt",), "F"), (("#file",), "S")]
            if n in ("std::basic_ifstream", "std::basic_istream", "std::basic_istringstream", "io::CSVReader"):
                return [(("#pos",), "I"), (("#file",), "S"), (("#lpos",), "I")]
            fs = self.fields(n)
            if fs is not None:
                return [((fn,) + p, s) for fn, ft, _, _ in fs for p, s in self.leaves(ft)]
            return [((), "U:" + n)]
        if c == "ptr":
            return [((), "O")]
        if c == "arr":
            return [(("[]",) + p, s) for p, s in self.leaves(t["t"])]
        return [((), "U:" + str(t.get("n", c)))]

    def scalar_sort(self, t):
        t = noref(t)
        ls = self.leaves(t)
        if len(ls) == 1 and ls[0][0] == ():
            return ls[0][1]
        return None

    # ------------------------------------------------------------------ memory
    def newroot(self, name):
        self.nroot += 1
        return f"{name}@{self.nroot}"

    @staticmethod
    def rootno(root):
        i = root.rfind("@")
        return int(root[i + 1:]) if i >= 0 and root[i + 1:].isdigit() else 0

    def init_cell(self, root, path, sort):
        o = self.overrides.get((root, path))
        if o is not None:
            return o
        ar = sum(1 for p in path if p == "[]")
        nm = self.symname.get((root, path)) or root + "".join("." + p for p in path if p != "[]")
        if path and path[-1] in ("#fmt",):
            return tm.const("fmt0", "F")
        if path and path[-1] == "[]" and False:
            pass
        return tm.app(nm, tuple(arg(i) for i in range(ar)), sort)

    def getcell(self, st, root, path, sort):
        c = st.cells.get((root, path))
        if c is None:
            c = self.init_cell(root, path, sort)
            st.cells[(root, path)] = c
        return c

    def read_leaf(self, st, lv, rel, sort):
        """lambda over the holes of rel"""
        full = lv.path + rel
        c = self.getcell(st, lv.root, full, sort)
        n = len(lv.idxs)
        m = sum(1 for p in rel if p == "[]")
        if n == 0:
            return c
        sub = {}
        for i in range(n):
            sub[arg(i)] = lv.idxs[i]
        for j in range(m):
            sub[arg(n + j)] = arg(j)
        return tm.subst(c, sub)

    def write_leaf(self, st, lv, rel, sort, val):
        """val: lambda over the holes of rel"""
        full = lv.path + rel
        n = len(lv.idxs)
        m = sum(1 for p in rel if p == "[]")
        if n == 0:
            st.cells[(lv.root, full)] = val
            return
        old = self.getcell(st, lv.root, full, sort)
        if m:
            val = tm.subst(val, {arg(j): arg(n + j) for j in range(m)})
        new = val
        # nested so that each index level can be recognised on its own
        for i in reversed(range(n)):
            o = old
            if i > 0:
                o = tm.subst(old, {arg(j): lv.idxs[j] for j in range(i)})
            new = tm.ite(tm.eq(arg(i), lv.idxs[i]), new, o)
            if i > 0:
                pass
        st.cells[(lv.root, full)] = new

    def rv(self, st, v):
        """rvalue of v"""
        if isinstance(v, Moved):
            v = v.lv
        if not isinstance(v, LV):
            return v
        t = noref(v.ty)
        b = st.binds.get(v.key())
        if b is not None:
            kind, tmpl = b
            ixs = [self.read_leaf(st, v, (f"#i{j}",), "I") for j in range(len(tmpl.idxs) + (1 if kind == "It" else 0))]
            if kind == "It":
                return It(LV(tmpl.root, tmpl.path, ixs[:-1], tmpl.ty), ixs[-1])
            return Ptr(LV(tmpl.root, tmpl.path, ixs, tmpl.ty))
        s = self.scalar_sort(t)
        if s is not None:
            r = self.read_leaf(st, v, (), s)
            return r
        if is_eigen_vec(t):
            return Vec([self.read_leaf(st, v, (str(i),), "R") for i in range(t["a"][1])])
        ls = {rel: self.read_leaf(st, v, rel, s) for rel, s in self.leaves(t)}
        if t["c"] == "arr" and isinstance(t.get("n"), int):
            ls[("#size",)] = num(t["n"])  # the backing array of an initialiser list
        return SV(t, ls)

    def store(self, st, lv, val, ty=None):
        t = noref(ty or lv.ty)
        src = None
        if isinstance(val, Moved):
            src = val.lv
            val = self.rv(st, val.lv)
        if isinstance(val, LV):
            val = self.rv(st, val)
        if isinstance(val, It):
            st.binds[lv.key()] = ("It", val.lv)
            for j, i in enumerate(list(val.lv.idxs) + [val.i]):
                self.write_leaf(st, lv, (f"#i{j}",), "I", i)
            return
        if isinstance(val, Ptr):
            st.binds[lv.key()] = ("Ptr", val.lv)
            for j, i in enumerate(val.lv.idxs):
                self.write_leaf(st, lv, (f"#i{j}",), "I", i)
            return
        if isinstance(val, Closure):
            st.binds[lv.key()] = ("Closure", val)
            return
        s = self.scalar_sort(t)
        if s is not None:
            if isinstance(val, SV) and () in val.leaves:
                val = val.leaves[()]
            if not isinstance(val, T):
                raise Unsupported(f"store of {type(val).__name__} into scalar {lv}")
            self.write_leaf(st, lv, (), s, self.conv(val, s))
            return
        if isinstance(val, Vec):
            if is_eigen_vec(t):
                if len(val.c) != t["a"][1]:
                    raise Unsupported("vector size mismatch")
                for i, x in enumerate(val.c):
                    self.write_leaf(st, lv, (str(i),), "R", x)
                return
            raise Unsupported("vector value stored into " + str(t.get("n")))
        if isinstance(val, SV):
            for rel, s in self.leaves(t):
                if rel in val.leaves:
                    self.write_leaf(st, lv, rel, s, val.leaves[rel])
                elif rel[-1] == "#stream":
                    self.write_leaf(st, lv, rel, s, tm.fresh("stream", "X", tuple(arg(i) for i in range(rel.count("[]")))))
                else:
                    raise Unsupported(f"aggregate store: leaf {rel} missing")
            if src is not None:
                for rel, s in self.leaves(t):
                    if rel and rel[-1] == "#ptr" and "[]" not in rel:
                        self.write_leaf(st, src, rel, s, tm.const("null", "O"))
            return
        if isinstance(val, T) and len(self.leaves(t)) == 1:
            rel, s = self.leaves(t)[0]
            self.write_leaf(st, lv, rel, s, val)
            return
        raise Unsupported(f"store of {type(val).__name__} into {t.get('n', t.get('c'))}")

    def conv(self, v, s):
        if v.sort == s:
            return v
        if s == "R" and v.sort == "I":
            return v
        if s == "I" and v.sort == "B":
            return tm.ite(v, ONE, ZERO)
        if s == "R" and v.sort == "B":
            return tm.ite(v, ONE, ZERO)
        if s == "B" and v.sort in ("I", "R"):
            return tm.not_(tm.eq(v, ZERO))
        if s == "I" and v.sort == "R":
            return v  # only reached when the value is integral by construction
        return v

    def materialize(self, st, val, ty):
        if isinstance(val, LV):
            return val
        lv = LV(self.newroot("tmp"), (), (), noref(ty))
        self.store(st, lv, val)
        return lv

    def tmp(self, ty, name="tmp"):
        return LV(self.newroot(name), (), (), noref(ty))

    # ------------------------------------------------------------------ merging
    def merge_terms(self, c, a, b, depth=0):
        if a is b:
            return a
        if a.sort == "X" or b.sort == "X":
            def idxcond(t):
                return t.op == "ite" and t.args[0].op == "eq0" and any(v.args[0].startswith("#") for v in t.args[0].fv)
            ca = a.args[0] if idxcond(a) else None
            cb = b.args[0] if idxcond(b) else None
            if ca is not None or cb is not None:
                d = ca if ca is not None else cb
                if cb is not None and ca is not None and ca is not cb:
                    return tm.ite(c, a, b)
                sub = solve_idx(d)
                at = a.args[1] if ca is not None else (tm.subst(a, sub) if sub else a)
                ae = a.args[2] if ca is not None else a
                bt = b.args[1] if cb is not None else (tm.subst(b, sub) if sub else b)
                be = b.args[2] if cb is not None else b
                return tm.ite(d, self.merge_terms(c, at, bt, depth + 1), self.merge_terms(c, ae, be, depth + 1))
            return tm.site(c, a, b)
        if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0] and any(v.args[0].startswith("#") for v in a.args[0].fv):
            return tm.ite(a.args[0], self.merge_terms(c, a.args[1], b.args[1]), self.merge_terms(c, a.args[2], b.args[2]))
        for x, y, flip in ((a, b, False), (b, a, True)):
            if x.op == "ite" and x.args[2] is y and x.args[0].op == "eq0" and any(v.args[0].startswith("#") for v in x.args[0].fv):
                sub = solve_idx(x.args[0])
                if sub:
                    yy = tm.subst(y, sub)
                    inner = tm.ite(c, x.args[1], yy) if not flip else tm.ite(c, yy, x.args[1])
                    return tm.ite(x.args[0], inner, y)
        return tm.ite(c, a, b)

    def merge_vals(self, st_a, st_b, c, a, b):
        if a is b or a is VOID:
            return a
        if isinstance(a, LV) and isinstance(b, LV):
            if a.same(b):
                return a
            if a.key() == b.key():
                return LV(a.root, a.path, [tm.ite(c, x, y) for x, y in zip(a.idxs, b.idxs)], a.ty)
            if a.root.startswith("tmp@") and b.root.startswith("tmp@"):
                return self.merge_vals(st_a, st_b, c, self.rv(st_a, a), self.rv(st_b, b))
            raise Unsupported("merge of references to different objects")
        if isinstance(a, LV):
            a = self.rv(st_a, a)
        if isinstance(b, LV):
            b = self.rv(st_b, b)
        if isinstance(a, T) and isinstance(b, T):
            return self.merge_terms(c, a, b)
        if isinstance(a, Vec) and isinstance(b, Vec):
            return Vec([tm.ite(c, x, y) for x, y in zip(a.c, b.c)])
        if isinstance(a, SV) and isinstance(b, SV):
            return SV(a.ty, {k: self.merge_terms(c, a.leaves[k], b.leaves[k]) for k in a.leaves if k in b.leaves})
        if isinstance(a, It) and isinstance(b, It) and a.lv.key() == b.lv.key():
            return It(LV(a.lv.root, a.lv.path, [tm.ite(c, x, y) for x, y in zip(a.lv.idxs, b.lv.idxs)], a.lv.ty), tm.ite(c, a.i, b.i))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv.key() == b.lv.key():
            return Ptr(LV(a.lv.root, a.lv.path, [tm.ite(c, x, y) for x, y in zip(a.lv.idxs, b.lv.idxs)], a.lv.ty), tm.ite(c, a.nn, b.nn))
        raise Unsupported(f"merge of {type(a).__name__} and {type(b).__name__}")

    def split_cond(self, A, B):
        """condition under which A (rather than B) is the current state"""
        n = 0
        while n < len(A.pc) and n < len(B.pc) and A.pc[n] is B.pc[n]:
            n += 1
        la, lb = A.pc[n:], B.pc[n:]
        sb = set(lb)
        for l in la:
            if tm.not_(l) in sb:
                return l, A.pc[:n], la, lb
        nb = tm.and_(*lb)
        na = tm.and_(*la)
        if tm.not_(nb) is na:
            return na, A.pc[:n], la, lb
        return na, A.pc[:n], la, lb

    def merge(self, A, B, va=VOID, vb=VOID):
        if A is None:
            return B, vb
        if B is None:
            return A, va
        c, common, la, lb = self.split_cond(A, B)
        S = State()
        S.pc = list(common)
        S.assume(tm.or_(tm.and_(*la), tm.and_(*lb)))
        v = self.merge_vals(A, B, c, va, vb)
        for k in set(A.cells) | set(B.cells):
            x, y = A.cells.get(k), B.cells.get(k)
            if x is None or y is None:
                # a root created in one branch only, or a cell first touched there
                z = x if x is not None else y
                if self.rootno(k[0]) == 0 or True:
                    i = self.init_cell(k[0], k[1], z.sort)
                    if self.rootno(k[0]) > 0 and z is not i and not self._known(A, B, k[0]):
                        S.cells[k] = z
                        continue
                    x = x if x is not None else i
                    y = y if y is not None else i
            S.cells[k] = x if x is y else self.merge_terms(c, x, y)
        S.binds = dict(B.binds)
        S.binds.update(A.binds)
        return S, v

    def _known(self, A, B, root):
        """root existed before the branch: it has some cell in both"""
        return any(k[0] == root for k in A.cells) and any(k[0] == root for k in B.cells)

    # ------------------------------------------------------------------ obligations
    def oblige(self, kind, st, goal, where, note=""):
        if self.noobl or goal is TRUE:
            return
        self.obls.append(Obl(kind, list(st.pc), goal, where, note))

    def where(self, e):
        l = e.get("l") if isinstance(e, dict) else None
        return f"{self.stack[-1] if self.stack else '?'}:{l}"

    # ------------------------------------------------------------------ expressions
    def simp(self, st, c):
        if c is TRUE or c is FALSE:
            return c
        for l in st.pc:
            if l is c:
                return TRUE
            if l is tm.not_(c):
                return FALSE
        if c.op in ("and", "or"):
            r = [self.simp(st, x) for x in c.args]
            return tm.and_(*r) if c.op == "and" else tm.or_(*r)
        if c.op == "eq0":
            # x == c1 contradicts a known x == c2
            for l in st.pc:
                if l.op == "eq0":
                    d = tm.sub(l.args[0], c.args[0])
                    if d.op == "num":
                        return FALSE
                    if tm.add(l.args[0], c.args[0]).op == "num" and tm.cval(tm.add(l.args[0], c.args[0])) != 0:
                        return FALSE
        if c.op == "not" and c.args[0].op == "eq0":
            return tm.not_(self.simp(st, c.args[0]))
        return c

    def ev(self, e, st, fr):
        """value or lvalue"""
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unsupported(f"expression {e['k']} ({e.get('what', '')}) at {self.where(e)}")
        return m(e, st, fr)

    def evr(self, e, st, fr):
        return self.rv(st, self.ev(e, st, fr))

    def evt(self, e, st, fr):
        v = self.evr(e, st, fr)
        if isinstance(v, Ptr):
            return v.nn
        if not isinstance(v, T):
            raise Unsupported(f"scalar expected, got {type(v).__name__} at {self.where(e)}")
        return v

    def evb(self, e, st, fr):
        return self.conv(self.evt(e, st, fr), "B")

    def etype(self, e, fr):
        return fr.types[e["t"]] if "t" in e and e["t"] is not None else None

    def e_int(self, e, st, fr):
        return num(int(e["v"]))

    def e_char(self, e, st, fr):
        return tm.strc(chr(e["v"])) if False else num(e["v"])

    def e_float(self, e, st, fr):
        if e.get("nan"):
            return tm.const("NAN", "R")
        if e.get("inf"):
            return tm.const("INFINITY", "R")
        v = Fraction(e["v"])
        if noref(self.etype(e, fr)).get("w", 64) == 64:
            v = Fraction(repr(float(e["v"])))  # the decimal literal itself
        return num(PI if abs(v - PI) < Fraction(1, 10 ** 14) else v)

    def e_bool(self, e, st, fr):
        return tm.boolc(e["v"])

    def e_str(self, e, st, fr):
        return tm.strc(e["v"])

    def e_null(self, e, st, fr):
        return tm.const("null", "O")

    def e_enumc(self, e, st, fr):
        return num(int(e["v"]))

    def e_fnref(self, e, st, fr):
        return FnRef(e)

    def e_zero(self, e, st, fr):
        return self.zero_value(self.etype(e, fr))

    def zero_value(self, t):
        t = noref(t)
        s = self.scalar_sort(t)
        if s in ("I", "R"):
            return ZERO
        if s == "B":
            return FALSE
        if s == "S":
            return tm.strc("")
        if s == "O":
            return tm.const("null", "O")
        if is_eigen_vec(t):
            return Vec([ZERO] * t["a"][1])
        d = {}
        for rel, s in self.leaves(t):
            d[rel] = {"I": ZERO, "R": ZERO, "B": FALSE, "S": tm.strc(""), "O": tm.const("null", "O"), "X": tm.NIL, "F": tm.const("fmt0", "F")}.get(s)
            if d[rel] is None:
                d[rel] = tm.fresh("zero", s)
        return SV(t, d)

    def e_ref(self, e, st, fr):
        b = fr.lookup(e["id"])
        if b is not None:
            if isinstance(b, LV):
                k = st.binds.get(b.key())
                if k is not None and k[0] == "Closure":
                    return k[1]
            return b
        if "global" in e:
            if "init" in e:
                return self.ev(e["init"], st, fr)
            if e["global"].startswith("std::") and e["global"].endswith("::npos"):
                return num(2 ** 64 - 1)
            return LV("g:" + e["global"], (), (), self.etype(e, fr))
        raise Unsupported(f"unbound variable {e['n']} at {self.where(e)}")

    def e_this(self, e, st, fr):
        f = fr
        while f is not None and f.this is None:
            f = f.parent
        if f is None:
            raise Unsupported("this outside a method")
        return Ptr(f.this)

    def deref(self, v, st, e=None):
        if isinstance(v, LV):
            v = self.rv(st, v)
        if isinstance(v, Ptr):
            if v.nn is not TRUE:
                self.oblige("null", st, v.nn, self.where(e or {}))
            return v.lv
        if isinstance(v, It):
            return self.elem(st, v.lv, v.i, e, check=True)
        if isinstance(v, T) and v.sort == "O":
            if v.op == "app" and v.args[0].startswith("&"):
                r = v.args[0][1:]
                return LV(r, (), (), self.heap[r])
            h = self.ext.get("deref")
            if h:
                r = h(self, v, st)
                if r is not None:
                    return r
        if isinstance(v, SV) and ("#ptr",) in v.leaves:
            return self.deref(v.leaves[("#ptr",)], st, e)
        if isinstance(v, SV) and ("#has",) in v.leaves:
            raise Unsupported("optional deref")
        raise Unsupported(f"dereference of {v if isinstance(v, T) else type(v).__name__}")

    def e_member(self, e, st, fr):
        b = self.ev(e["base"], st, fr)
        if e["arrow"]:
            lv = self.deref(b, st, e)
        else:
            if isinstance(b, Moved):
                b = b.lv
            lv = b if isinstance(b, LV) else self.materialize(st, b, self.etype(e["base"], fr))
        return lv.field(e["n"], ty=self.etype(e, fr))

    def e_memptr(self, e, st, fr):
        return MemPtr(e["n"])

    def e_ptrmem(self, e, st, fr):
        f = self.ev(e["f"], st, fr)
        if not isinstance(f, MemPtr):
            raise Unsupported("pointer to member")
        return self.e_member({"base": e["base"], "arrow": e["arrow"], "n": f.name, "t": e["t"], "k": "member"}, st, fr)

    def elem(self, st, cont, i, e=None, check=True, ty=None):
        t = noref(cont.ty)
        if ty is None:
            if t["c"] == "arr":
                ty = t["t"]
            elif is_dynvec(t) or is_eigen_vec(t):
                ty = {"c": "flt", "w": 64}
            else:
                ty = t["a"][0]
        if is_eigen_vec(t):
            if tm.isnum(i):
                return LV(cont.root, cont.path + (str(int(tm.cval(i))),), cont.idxs, ty)
            raise Unsupported("symbolic component index")
        if self.index_hook:
            i = self.index_hook(st, cont, i)
        if check:
            n = self.size_of(st, cont)
            self.oblige("bounds", st, tm.and_(tm.le(ZERO, i), tm.lt(i, n)), self.where(e or {}), f"index into {cont}")
        return cont.elem(i, ty)

    def size_of(self, st, cont):
        t = noref(cont.ty)
        if t["c"] == "arr":
            return num(t["n"])
        if is_eigen_vec(t):
            return num(t["a"][1])
        if recname(t) == "std::array":
            return num(t["a"][1])
        if t.get("repo"):
            raise Unsupported("size of repo container")
        return self.read_leaf(st, cont, ("#size",), "I")

    def e_index(self, e, st, fr):
        b = self.ev(e["a"], st, fr)
        i = self.evt(e["i"], st, fr)
        if isinstance(b, Ptr):
            b = b.lv
            if not b.path or b.path[-1] != "[]":
                raise Unsupported("pointer indexing")
            return LV(b.root, b.path, b.idxs[:-1] + (tm.add(b.idxs[-1], i),), b.ty)
        if isinstance(b, LV):
            return self.elem(st, b, i, e)
        raise Unsupported("index on value")

    # ---- arithmetic
    def e_bin(self, e, st, fr):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.simp(st, self.evb(e["a"], st, fr))
            if (op == "&&" and a is FALSE) or (op == "||" and a is TRUE):
                return a
            lit = a if op == "&&" else tm.not_(a)
            s2 = st.copy().assume(lit)
            pc0 = len(s2.pc)
            b = self.evb(e["b"], s2, fr)
            changed = any(s2.cells[k] is not st.cells.get(k, s2.cells[k]) for k in s2.cells)
            if changed:
                s3 = st.copy().assume(tm.not_(lit))
                m, _ = self.merge(s2, s3)
                st.assign(m)
            else:
                for k in s2.cells:
                    st.cells.setdefault(k, s2.cells[k])
            return tm.and_(a, b) if op == "&&" else tm.or_(a, b)
        if op == ",":
            self.ev(e["a"], st, fr)
            return self.ev(e["b"], st, fr)
        a = self.evr(e["a"], st, fr)
        b = self.evr(e["b"], st, fr)
        return self.arith(op, a, b, self.etype(e, fr), st, e)

    def arith(self, op, a, b, t, st, e):
        if isinstance(a, It) or isinstance(b, It) or isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.it_arith(op, a, b)
        if isinstance(a, Vec) or isinstance(b, Vec):
            return self.vec_arith(op, a, b, st, e)
        if not isinstance(a, T) or not isinstance(b, T):
            raise Unsupported(f"operator {op} on {type(a).__name__},{type(b).__name__} at {self.where(e)}")
        if a.sort == "B" and op not in ("==", "!=", "&", "|", "^"):
            a = self.conv(a, "I")
        if b.sort == "B" and op not in ("==", "!=", "&", "|", "^"):
            b = self.conv(b, "I")
        isint = t is not None and noref(t)["c"] in ("int", "enum")
        if t is not None and op in ("+", "-", "*", "/") and noref(t)["c"] == "flt" and noref(t).get("w", 64) < 64:
            return rounded(self.arith(op, a, b, None, st, e), noref(t)["w"])
        if op in ("+", "-", "*") and isint:
            self.fits(st, {"+": tm.add, "-": tm.sub, "*": tm.mul}[op](a, b), t, e)
        if op == "+":
            if a.sort == "S":
                return str_concat(a, b)
            return tm.add(a, b)
        if op == "-":
            if unsigned(t):
                self.oblige("wrap", st, tm.le(b, a), self.where(e), "unsigned subtraction")
            return tm.sub(a, b)
        if op == "*":
            return tm.mul(a, b)
        if op == "/":
            if isint:
                self.oblige("div", st, tm.not_(tm.eq(b, ZERO)), self.where(e), "integer division")
                return tm.idiv(a, b)
            self.oblige("fdiv", st, tm.not_(tm.eq(b, ZERO)), self.where(e), "denominator")
            return tm.div(a, b)
        if op == "%":
            self.oblige("div", st, tm.not_(tm.eq(b, ZERO)), self.where(e), "modulus")
            return tm.imod(a, b)
        if op in ("<", ">", "<=", ">=") and (a.sort not in ("I", "R") or b.sort not in ("I", "R")):
            r = tm.app("less", (a, b) if op in ("<", ">=") else (b, a), "B")
            return r if op in ("<", ">") else tm.not_(r)
        if op == "<":
            return self.cmp("<", a, b)
        if op == ">":
            return self.cmp("<", b, a)
        if op == "<=":
            return self.cmp("<=", a, b)
        if op == ">=":
            return self.cmp("<=", b, a)
        if op in ("==", "!="):
            if a.sort != b.sort and "B" in (a.sort, b.sort):
                a, b = self.conv(a, "I"), self.conv(b, "I")
            r = tm.eq(a, b)
            na = self.nan_of(a, b)
            if op == "==":
                return tm.and_(tm.not_(na), r)
            return tm.or_(na, tm.not_(r))
        if op in ("&", "|", "^") and a.sort == "B" and b.sort == "B":
            return {"&": tm.and_, "|": tm.or_, "^": lambda x, y: tm.not_(tm.iff(x, y))}[op](a, b)
        return tm.app("bitop" + op, (a, b), "I")

    def fits(self, st, r, t, e, signedonly=True):
        """a 32-bit value is in the range of its type (unsigned types wrap: only subtraction has an obligation, see arith)"""
        t = noref(t)
        if t["c"] != "int" or t.get("w", 32) != 32 or tm.isnum(r) or r.sort != "I" or (signedonly and not t.get("s")):
            return
        lo, hi = (-(1 << 31), (1 << 31) - 1) if t.get("s") else (0, (1 << 32) - 1)
        self.oblige("range", st, tm.and_(tm.le(num(lo), r), tm.le(r, num(hi))), self.where(e), "32-bit range")

    # ---- NaN-aware comparisons (only when self.nanable names symbols that may be NaN)
    nanable = frozenset()
    index_hook = None

    def nan_of(self, *ts):
        if not self.nanable:
            return FALSE
        out, seen, stack = [], set(), list(ts)
        while stack:
            x = stack.pop()
            if x in seen or x.sort == "I":  # integers are never NaN; converting one is an obligation of its own (nan-cast)
                continue
            seen.add(x)
            if x.op == "app" and x.args[0] in self.nanable:
                out.append(tm.app("isnan:" + x.args[0], x.args[1:], "B"))
            stack.extend(tm._kids(x))
        return tm.or_(*out)

    def cmp(self, op, a, b):
        r = tm.lt(a, b) if op == "<" else tm.le(a, b)
        na = self.nan_of(a, b)
        return tm.and_(tm.not_(na), r)

    def it_arith(self, op, a, b):
        if isinstance(a, It) and isinstance(b, It):
            if a.lv.key() != b.lv.key():
                raise Unsupported("iterators of different containers")
            if op == "==":
                return tm.eq(a.i, b.i)
            if op == "!=":
                return tm.not_(tm.eq(a.i, b.i))
            if op == "-":
                return tm.sub(a.i, b.i)
            if op == "<":
                return tm.lt(a.i, b.i)
            if op == "<=":
                return tm.le(a.i, b.i)
            if op == ">":
                return tm.lt(b.i, a.i)
            if op == ">=":
                return tm.le(b.i, a.i)
        if isinstance(a, It) and isinstance(b, T) and op in "+-":
            return It(a.lv, tm.add(a.i, b) if op == "+" else tm.sub(a.i, b))
        if isinstance(a, Ptr) and isinstance(b, T) and b.sort == "I" and op in "+-" and a.lv.path and a.lv.path[-1] == "[]":
            l = a.lv
            return Ptr(LV(l.root, l.path, l.idxs[:-1] + (tm.add(l.idxs[-1], b if op == "+" else tm.neg(b)),), l.ty))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op in ("==", "!="):
                if a.lv.key() == b.lv.key():
                    r = tm.and_(*[tm.eq(x, y) for x, y in zip(a.lv.idxs, b.lv.idxs)])
                else:
                    r = FALSE
                return r if op == "==" else tm.not_(r)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ptr) and isinstance(y, T) and y.op == "app" and y.args[0] == "null":
                return tm.not_(x.nn) if op == "==" else x.nn
        raise Unsupported(f"pointer/iterator operator {op}")

    def vec_arith(self, op, a, b, st, e):
        if isinstance(a, Vec) and isinstance(b, Vec):
            if len(a.c) != len(b.c):
                raise Unsupported("vector sizes differ")
            f = {"+": tm.add, "-": tm.sub, "*": tm.mul}.get(op)
            if op == "*":
                f = tm.mul  # array product
            if op == "/":
                for y in b.c:
                    self.oblige("fdiv", st, tm.not_(tm.eq(y, ZERO)), self.where(e), "denominator")
                f = tm.div
            if op in ("==", "!="):
                r = tm.and_(*[tm.eq(x, y) for x, y in zip(a.c, b.c)])
                return r if op == "==" else tm.not_(r)
            if f is None:
                raise Unsupported("vector operator " + op)
            return Vec([f(x, y) for x, y in zip(a.c, b.c)])
        if isinstance(a, Vec):
            if op == "*":
                return Vec([tm.mul(x, b) for x in a.c])
            if op == "/":
                self.oblige("fdiv", st, tm.not_(tm.eq(b, ZERO)), self.where(e), "denominator")
                return Vec([tm.div(x, b) for x in a.c])
            if op in "+-":
                return Vec([(tm.add if op == "+" else tm.sub)(x, b) for x in a.c])
        if isinstance(b, Vec) and op == "*":
            return Vec([tm.mul(a, x) for x in b.c])
        raise Unsupported("vector operator " + op)

    def e_un(self, e, st, fr):
        op = e["op"]
        if op in ("++", "--"):
            lv = self.ev(e["e"], st, fr)
            return self.incdec(lv, op, e.get("post"), st)
        if op == "&":
            v = self.ev(e["e"], st, fr)
            if isinstance(v, LV):
                return Ptr(v)
            raise Unsupported("address of value")
        if op == "*":
            return self.reinterpret(self.deref(self.ev(e["e"], st, fr), st, e), st, e, fr)
        v = self.evr(e["e"], st, fr)
        if op == "!":
            return tm.not_(self.conv(v.nn if isinstance(v, Ptr) else v, "B"))
        if isinstance(v, T) and v.sort == "B":
            v = self.conv(v, "I")
        if op == "-":
            return Vec([tm.neg(x) for x in v.c]) if isinstance(v, Vec) else tm.neg(v)
        if op == "+":
            return v
        raise Unsupported("unary " + op)

    def reinterpret(self, v, st, e, fr):
        """an object read through a pointer of another type (little-endian machine)"""
        if not isinstance(v, LV):
            return v
        a, t = noref(v.ty), noref(self.etype(e, fr))
        if a["c"] not in ("int", "flt", "enum") or t["c"] not in ("int", "flt", "enum") or (a["c"] == t["c"] and a.get("w", 32) == t.get("w", 32)):
            return v
        x = self.rv(st, v)
        if a["c"] == "int" and t["c"] == "int" and not t.get("s") and t.get("w", 32) < a.get("w", 32) and tm.isnum(x):
            return num(int(tm.cval(x)) % 2 ** t.get("w", 32))
        raise Unsupported("object read through a pointer of another type")

    def incdec(self, lv, op, post, st):
        if not isinstance(lv, LV):
            raise Unsupported("++ on value")
        old = self.rv(st, lv)
        d = ONE if op == "++" else num(-1)
        if isinstance(old, It):
            new = It(old.lv, tm.add(old.i, d))
        elif isinstance(old, T):
            new = narrowed(tm.add(old, d), lv.ty)
        elif isinstance(old, Ptr):
            new = self.it_arith("+", old, d)
        else:
            raise Unsupported("++")
        self.store(st, lv, new)
        return old if post else lv

    def e_cond(self, e, st, fr):
        c = self.simp(st, self.evb(e["c"], st, fr))
        if c is TRUE:
            return self.ev(e["a"], st, fr)
        if c is FALSE:
            return self.ev(e["b"], st, fr)
        A, B = st.copy().assume(c), st.copy().assume(tm.not_(c))
        va = vb = None
        try:
            va = self.ev(e["a"], A, fr)
        except Dead:
            A = None
        try:
            vb = self.ev(e["b"], B, fr)
        except Dead:
            B = None
        if A is None and B is None:
            raise Dead()
        if A is None or B is None:
            S, v = (A, va) if B is None else (B, vb)
            st.assign(S)
            return v
        if isinstance(va, LV) and isinstance(vb, LV) and not (va.key() == vb.key()):
            va, vb = self.rv(A, va), self.rv(B, vb)
        pc = list(st.pc)
        S, v = self.merge(A, B, va, vb)
        st.assign(S)
        st.pc = pc
        return v

    def e_asg(self, e, st, fr):
        v = self.ev(e["b"], st, fr)
        if isinstance(v, LV):
            v = self.rv(st, v)
        lv = self.ev(e["a"], st, fr)
        if not isinstance(lv, LV):
            raise Unsupported(f"assignment to a value at {self.where(e)}")
        self.store(st, lv, v)
        return lv

    def e_casg(self, e, st, fr):
        b = self.evr(e["b"], st, fr)
        lv = self.ev(e["a"], st, fr)
        a = self.rv(st, lv)
        ct = self.ty(fr, e["ct"])
        r = self.arith(e["op"], a, b, ct, st, e)
        lt = noref(lv.ty)
        if lt["c"] == "int" and noref(ct)["c"] == "flt":
            r = tm.trunc(r)
        if lt["c"] == "int":
            if noref(ct).get("w", 32) > 32:
                self.fits(st, r, lt, e, False)
            r = narrowed(r, lt)
        if lt["c"] == "flt" and lt.get("w", 64) < noref(ct).get("w", 64):
            r = rounded(r, lt["w"])
        self.store(st, lv, r)
        return lv

    def e_cast(self, e, st, fr):
        ck = e["ck"]
        if ck == "bitcast":
            return self.ev(e["e"], st, fr)
        if ck == "void":
            self.ev(e["e"], st, fr)
            return VOID
        if ck == "dyncast":
            h = self.ext.get("dynamic_cast")
            v = self.evr(e["e"], st, fr)
            if h:
                return h(self, e, v, st, fr)
            t = self.etype(e, fr)
            if t.get("c") != "ptr" or not isinstance(v, (T, Ptr)):
                raise Unsupported("dynamic_cast")
            to = noref(t["t"])
            if isinstance(v, Ptr):
                return Ptr(v.lv, v.nn) if recname(v.lv.ty) == to["n"] else Ptr(LV(v.lv.root, v.lv.path, v.lv.idxs, to), tm.fresh("is:" + to["n"], "B"))
            if v.op == "app" and v.args[0].startswith("&"):
                r = v.args[0][1:]
                return Ptr(LV(r, (), (), self.heap[r]), TRUE if self.derives(self.heap[r]["n"], to["n"]) else FALSE)
            if v is tm.const("null", "O"):
                return Ptr(LV("null", (), (), to), FALSE)
            return Ptr(LV("dyn:" + tm.show(v), (), (), to), tm.app("is:" + to["n"], (v,), "B"))
        if ck == "null":
            return tm.const("null", "O")
        v = self.evr(e["e"], st, fr)
        if ck == "p2b":
            if isinstance(v, Ptr):
                return v.nn
            if isinstance(v, T) and v.sort == "O":
                return tm.not_(tm.eq(v, tm.const("null", "O")))
            raise Unsupported("pointer to bool")
        if not isinstance(v, T):
            raise Unsupported(f"cast {ck} of {type(v).__name__}")
        if ck == "f2i":
            self.oblige("nan-cast", st, tm.not_(self.nan_of(v)), self.where(e), "conversion of a NaN to an integer")
            return narrowed(tm.trunc(v), self.etype(e, fr))
        if ck in ("i2f", "i2i"):
            t = noref(self.etype(e, fr))
            r = self.conv(v, "I") if v.sort == "B" else v
            st0 = noref(self.etype(e["e"], fr))
            if ck == "i2i" and st0["c"] == "int" and st0.get("w", 32) - bool(st0.get("s")) > t.get("w", 32) - bool(t.get("s")) and t.get("w", 32) == 32:
                self.fits(st, r, t, e, False)
            if ck == "i2i" and unsigned(t) and not unsigned(self.etype(e["e"], fr)) and v.sort == "I":
                self.oblige("wrap", st, tm.le(ZERO, r), self.where(e), "conversion to an unsigned type")
            if ck == "i2i" and t["c"] == "int" and t.get("w", 32) < 32 and v.sort != "B":
                st_ = noref(self.etype(e["e"], fr))
                kept = st_["c"] == "int" and (st_.get("w", 32) < t["w"] if t.get("s") and not st_.get("s") else st_.get("w", 32) <= t["w"] and bool(st_.get("s")) == bool(t.get("s")))
                if not kept:
                    return narrowed(r, t)
            if ck == "i2f" and t.get("w", 64) < 64:
                return rounded(r, t["w"])
            return r
        if ck in ("i2b", "f2b"):
            return self.conv(v, "B")
        if ck == "f2f":
            t, f = noref(self.etype(e, fr)), noref(self.etype(e["e"], fr))
            return rounded(v, t["w"]) if t["w"] < f["w"] else v
        raise Unsupported("cast " + ck)

    # ---- objects
    def e_initlist(self, e, st, fr):
        t = noref(self.etype(e, fr))
        vs = [self.ev(x, st, fr) for x in e["es"]]
        if t["c"] in SCAL and len(vs) == 1:
            return vs[0]
        if t["c"] in SCAL and not vs:
            return self.zero_value(t)
        if t.get("repo") or "fields" in e:
            lv = self.tmp(t)
            for (n, v) in zip(e.get("fields", []), vs):
                fty = next(ft for fn, ft, _, _ in self.fields(t["n"]) if fn == n)
                self.store(st, lv.field(n, ty=fty), v)
            return lv
        return self.list_value(st, t, vs)

    def list_value(self, st, t, vs, elty=None):
        """container value with the given elements"""
        elty = elty or (t["t"] if t["c"] == "arr" else t["a"][0])
        lv = self.tmp(t if is_stdvec(t) or t["c"] == "arr" else {"c": "rec", "n": "std::vector", "a": [elty]}, "lst")
        for rel, s in self.leaves(elty):
            ar = rel.count("[]")
            base = tm.fresh("noelem", s, tuple(arg(i) for i in range(ar + 1)))
            st.cells[(lv.root, ("[]",) + rel)] = base
        for i, v in enumerate(vs):
            self.store(st, lv.elem(num(i), elty), v)
        if t["c"] != "arr":
            st.cells[(lv.root, ("#size",))] = num(len(vs))
            st.cells[(lv.root, ("#stream",))] = tm.fresh("stream", "X")
        return lv

    def e_new(self, e, st, fr):
        t = self.ty(fr, e["at"])
        if e.get("array"):
            raise Unsupported("new[]")
        r = self.newroot("heap")
        self.heap[r] = t
        lv = LV(r, (), (), t)
        if e.get("ctor"):
            self.construct(lv, e["ctor"], st, fr)
        return tm.app("&" + r, (), "O")

    def construct(self, lv, e, st, fr):
        """initialise lv from the initialiser expression e"""
        if e["k"] == "ctor" and not e.get("copy"):
            self.run_ctor(lv, e, st, fr)
            return
        v = self.ev(e, st, fr)
        self.store(st, lv, v)

    def e_ctor(self, e, st, fr):
        t = noref(self.etype(e, fr))
        if e.get("copy") and len(e["args"]) >= 1:
            v = self.ev(e["args"][0], st, fr)
            if isinstance(v, Moved) and recname(noref(v.lv.ty)) == "std::basic_ofstream":
                v, lv = self.rv(st, v.lv), v.lv
                self.moved_stream(st, lv)
                return v
            if isinstance(v, LV) and not e.get("move"):
                # value copy
                return self.rv(st, v) if not v.root.startswith("tmp@") else v
            return v
        lv = self.tmp(t)
        r = self.run_ctor(lv, e, st, fr)
        if r is not None:
            return r
        s = self.scalar_sort(t)
        if s is not None or is_eigen_vec(t):
            return self.rv(st, lv)
        return lv

    def run_ctor(self, lv, e, st, fr):
        f = e["f"]
        if f.get("repo"):
            fn = self.prog.functions.get(f["key"])
            if fn is not None:
                args = [self.ev(a, st, fr) for a in e["args"]]
                h = self.ext.get(strip_templates(f["q"]))
                if h:
                    h(self, e, lv, args, st)
                    return
                self.default_init(st, lv, uninit=True)
                self.call_fn(fn, lv, args, st, e)
                return
            if e.get("dflt") or not e["args"]:
                self.default_init(st, lv)
                return
            raise Unsupported("constructor without body: " + f["key"])
        return self.lib_ctor(lv, e, st, fr)

    def default_init(self, st, lv, uninit=False):
        """default-initialise an object (default member initialisers; indeterminate scalars get fresh symbols)"""
        t = noref(lv.ty)
        fs = self.fields(t["n"]) if t["c"] == "rec" else None
        if fs is None:
            self.lib_default(st, lv)
            return
        for n, ft, fd, r in fs:
            sub = lv.field(n, ty=ft)
            if fd.get("init") and not uninit:
                fr = Frame(r["types"], this=lv)
                self.construct(sub, fd["init"], st, fr)
            elif ft["c"] in SCAL or ft["c"] == "ptr":
                self.write_leaf(st, sub, (), self.scalar_sort(ft), tm.fresh("uninit", self.scalar_sort(ft)))
            else:
                self.default_init(st, sub)

    def lib_default(self, st, lv):
        t = noref(lv.ty)
        if t["c"] in SCAL or t["c"] == "ptr" or t["c"] == "enum":
            self.write_leaf(st, lv, (), self.scalar_sort(t), tm.fresh("uninit", self.scalar_sort(t)))
            return
        if t["c"] == "arr" or recname(t) == "std::array" or is_eigen_vec(t):
            for rel, s in self.leaves(t):
                self.write_leaf(st, lv, rel, s, tm.fresh("uninit", s, tuple(arg(i) for i in range(rel.count("[]")))))
            return
        z = {"I": ZERO, "R": ZERO, "B": FALSE, "S": tm.strc(""), "O": tm.const("null", "O"), "X": tm.NIL, "F": tm.const("fmt0", "F")}
        for rel, s in self.leaves(t):
            if rel and rel[0] == "[]":
                val = tm.fresh("noelem", s, tuple(arg(i) for i in range(rel.count("[]"))))
            elif s in z:
                val = z[s]
            else:
                val = tm.fresh("obj", s, tuple(arg(i) for i in range(rel.count("[]"))))
            self.write_leaf(st, lv, rel, s, val)

    def e_lambda(self, e, st, fr):
        cl = Closure(e, Frame(fr.types, None, fr))
        for c in e["caps"]:
            if c.get("id") is not None and not c["ref"]:
                v = fr.lookup(c["id"])
                if isinstance(v, LV):
                    cp = LV(self.newroot("cap"), (), (), noref(v.ty))
                    self.store(st, cp, self.rv(st, v))
                    cl.frame.env[c["id"]] = cp
        return cl

    def e_throw(self, e, st, fr):
        self.exits.append(("throw", list(st.pc), st.copy(), self.where(e)))
        raise Dead()

    def e_delete(self, e, st, fr):
        raise Unsupported("delete")

    # ------------------------------------------------------------------ calls
    def e_call(self, e, st, fr):
        f = e.get("f")
        if f is None:
            fv = self.ev(e["fe"], st, fr)
            if isinstance(fv, Closure):
                return self.call_closure(fv, [self.ev(a, st, fr) for a in e["args"]], st)
            if isinstance(fv, FnRef):
                f = fv.info
            else:
                raise Unsupported("call through a pointer")
        q = strip_templates(f["q"])
        if q in self.ext:
            args = [self.ev(a, st, fr) for a in e["args"]]
            return self.ext[q](self, e, None, args, st)
        if f.get("repo"):
            fn = self.prog.functions.get(f["key"])
            if fn is None:
                raise Unsupported("no body for " + f["key"])
            args = [self.ev(a, st, fr) for a in e["args"]]
            return self.call_fn(fn, None, args, st, e)
        from . import lib
        return lib.call(self, q, e, st, fr)

    def e_mcall(self, e, st, fr):
        f = e.get("f")
        if f is None:
            raise Unsupported("member pointer call")
        q = strip_templates(f["q"])
        obj = self.ev(e["obj"], st, fr)
        if e.get("arrow"):
            if isinstance(obj, T) or isinstance(obj, LV) or isinstance(obj, SV):
                p = self.rv(st, obj)
                if isinstance(p, SV) and ("#ptr",) in p.leaves:
                    p = p.leaves[("#ptr",)]
                if isinstance(p, T) and not p.args[0].startswith("&") and f.get("virt"):
                    h = self.virtual.get(q)
                    if h:
                        args = [self.ev(a, st, fr) for a in e["args"]]
                        return h(self, e, p, args, st)
                    raise Unsupported("virtual call " + q + " on an unknown object")
                obj = self.deref(p, st, e)
            else:
                obj = self.deref(obj, st, e)
        if q in self.ext:
            args = [self.ev(a, st, fr) for a in e["args"]]
            return self.ext[q](self, e, obj, args, st)
        if f.get("virt") and not e.get("nonvirt") and f.get("repo"):
            h = self.virtual.get(q)
            if h:
                args = [self.ev(a, st, fr) for a in e["args"]]
                return h(self, e, obj, args, st)
            # static type of the object decides when it is a heap object of known dynamic type
            dyn = noref(obj.ty).get("n") if isinstance(obj, LV) else None
            if isinstance(obj, LV) and obj.root in self.heap and not obj.path:
                dyn = noref(self.heap[obj.root])["n"]
            cand = [g for g in self.prog.functions.values() if g.get("cls") == dyn and (g["key"] == f["key"] or f["key"] in g.get("overrides", []))]
            if len(cand) == 1:
                args = [self.ev(a, st, fr) for a in e["args"]]
                return self.call_fn(cand[0], obj, args, st, e)
            raise Unsupported("virtual call " + q)
        if f.get("repo"):
            fn = self.prog.functions.get(f["key"])
            if fn is None:
                raise Unsupported("no body for " + f["key"])
            if not isinstance(obj, LV):
                obj = self.materialize(st, obj, self.etype(e["obj"], fr))
            args = [self.ev(a, st, fr) for a in e["args"]]
            return self.call_fn(fn, obj, args, st, e)
        from . import lib
        return lib.mcall(self, q, e, obj, st, fr)

    def e_opcall(self, e, st, fr):
        f = e.get("f")
        op = e["op"]
        if f is not None:
            q = strip_templates(f["q"])
            if q in self.ext:
                args = [self.ev(a, st, fr) for a in e["args"]]
                return self.ext[q](self, e, None, args, st)
            if f.get("repo"):
                fn = self.prog.functions.get(f["key"])
                if fn is not None:
                    args = [self.ev(a, st, fr) for a in e["args"]]
                    if f.get("cls"):
                        o = args[0]
                        if not isinstance(o, LV):
                            o = self.materialize(st, o, self.etype(e["args"][0], fr))
                        return self.call_fn(fn, o, args[1:], st, e)
                    return self.call_fn(fn, None, args, st, e)
                if op == "=":
                    v = self.ev(e["args"][1], st, fr)
                    lv = self.ev(e["args"][0], st, fr)
                    if isinstance(v, LV):
                        v = self.rv(st, v)
                    self.store(st, lv, v)
                    return lv
                if op == "()":
                    c = self.ev(e["args"][0], st, fr)
                    if isinstance(c, Closure):
                        return self.call_closure(c, [self.ev(a, st, fr) for a in e["args"][1:]], st, e.get("inst"))
                raise Unsupported("no body for " + f["key"])
        from . import lib
        return lib.opcall(self, op, e, st, fr)

    def call_closure(self, cl, args, st, inst=None):
        fr = Frame(cl.frame.types, None, cl.frame)
        fn = cl.node
        insts = cl.node.get("insts") or []
        if len(insts) > 1:
            fn = next((x for x in insts if x["inst"] == inst), None)
            if fn is None:
                raise Unsupported("generic lambda with several instantiations")
        for p, a in zip(fn["params"], args):
            self.bind_param(fr, p, a, st)
        return self.run_body(fn["body"], fr, st, "lambda")

    def bind_param(self, fr, p, a, st):
        t = fr.types[p["t"]]
        if t["c"] == "ref":
            if isinstance(a, Moved):
                a = a.lv
            fr.env[p["id"]] = a if isinstance(a, (LV, Closure)) else self.mat_param(st, a, t["t"], p)
        else:
            if isinstance(a, Closure):
                fr.env[p["id"]] = a
                return
            if isinstance(a, LV) and st.binds.get(a.key(), ("",))[0] == "Closure":
                fr.env[p["id"]] = st.binds[a.key()][1]
                return
            lv = LV(self.newroot("a:" + p["n"]), (), (), t)
            self.store(st, lv, a)
            fr.env[p["id"]] = lv

    def mat_param(self, st, a, t, p):
        if isinstance(a, FnRef):
            return a
        return self.materialize(st, a, t)

    def call_fn(self, fn, this, args, st, e=None):
        self.inlined.add(fn["key"])
        if len(self.stack) > 60 or self.stack.count(fn["q"]) > 3:
            raise Unsupported("recursion in " + fn["q"])
        fr = Frame(fn["types"], this, None, fn)
        params = fn["params"]
        if len(args) < len(params):
            raise Unsupported("missing arguments for " + fn["q"])
        for p, a in zip(params, args):
            self.bind_param(fr, p, a, st)
        self.stack.append(fn["q"])
        try:
            if fn.get("ctor"):
                self.ctor_inits(fn, this, st, fr)
            r = self.run_body(fn["body"], fr, st, fn["q"], noref_ret=(fn["types"][fn["ret"]]))
        finally:
            self.stack.pop()
        return r

    def ctor_inits(self, fn, this, st, fr):
        for i in fn["inits"]:
            if i.get("delegating"):
                self.construct(this, i["e"], st, fr)
            elif "m" in i:
                self.construct(this.field(i["m"], ty=fr.types[i["t"]]), i["e"], st, fr)
            elif i.get("e") and i["e"]["k"] == "ctor" and i["e"]["f"].get("repo"):
                bt = fr.types[i["base"]]
                self.run_ctor(LV(this.root, this.path, this.idxs, bt), i["e"], st, fr)

    def run_body(self, body, fr, st, name, noref_ret=None):
        """execute a function body in place; returns its value"""
        outs = self.ex(body, st.copy(), fr)
        S, v = None, VOID
        if "r" in outs:
            S, v = outs["r"]
        if "n" in outs:
            N = outs["n"][0]
            if S is None:
                S, v = N, VOID
            else:
                S, _ = self.merge(N, S)
        if S is None:
            raise Dead()
        if noref_ret is not None and noref_ret["c"] not in ("ref",) and isinstance(v, LV):
            v = v if v.root.startswith(("tmp@", "l:")) and not v.idxs and S.binds.get(v.key()) is None and self.scalar_sort(noref(v.ty)) is None and not is_eigen_vec(noref(v.ty)) else self.rv(S, v)
        if isinstance(v, Ptr) or isinstance(v, It):
            pass
        st.assign(S)
        return v

    # ------------------------------------------------------------------ statements: dict kind -> (state, value)
    def ex(self, s, st, fr):
        if s is None:
            return {"n": (st, VOID)}
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            raise Unsupported(f"statement {s['k']} ({s.get('what', '')}) at {self.where(s)}")
        try:
            return m(s, st, fr)
        except Dead:
            return {}

    def add_out(self, outs, k, st, v=VOID):
        if k in outs:
            S, V = self.merge(outs[k][0], st, outs[k][1], v)
            outs[k] = (S, V)
        else:
            outs[k] = (st, v)

    def s_compound(self, s, st, fr):
        return self.seq(s["b"], st, fr)

    def seq(self, ss, st, fr):
        outs = {}
        cur = st
        for x in ss:
            r = self.ex(x, cur, fr)
            cur = None
            for k, (S, v) in r.items():
                if k == "n":
                    cur = S
                else:
                    self.add_out(outs, k, S, v)
            if cur is None:
                return outs
        outs["n"] = (cur, VOID)
        return outs

    def s_null(self, s, st, fr):
        return {"n": (st, VOID)}

    def s_expr(self, s, st, fr):
        self.ev(s["e"], st, fr)
        return {"n": (st, VOID)}

    def s_decl(self, s, st, fr):
        for v in s["vars"]:
            self.declare(v, st, fr)
        return {"n": (st, VOID)}

    def declare(self, v, st, fr):
        t = fr.types[v["t"]]
        if v.get("static"):
            raise Unsupported("static local")
        if "bindings" in v:
            val = self.ev(v["init"], st, fr)
            if t["c"] != "ref" or not isinstance(val, LV):
                lv = LV(self.newroot("l:sb"), (), (), noref(t))
                self.store(st, lv, val)
                val = lv
            n = recname(t)
            for i, b in enumerate(v["bindings"]):
                bt = fr.types[b["t"]]
                if n == "std::pair":
                    nm = ("first", "second")[i]
                elif n == "std::tuple":
                    nm = f"e{i}"
                else:
                    fs = self.fields(n)
                    nm = fs[i][0]
                fr.env[b["id"]] = val.field(nm, ty=noref(bt))
            return
        init = v.get("init")
        if t["c"] == "ref":
            val = self.ev(init, st, fr)
            if isinstance(val, Moved):
                val = val.lv
            if isinstance(val, Closure):
                fr.env[v["id"]] = val
                return
            fr.env[v["id"]] = val if isinstance(val, LV) else self.materialize(st, val, t["t"])
            return
        lv = LV(self.newroot("l:" + v["n"]), (), (), t)
        fr.env[v["id"]] = lv
        if init is None:
            self.lib_default(st, lv) if not t.get("repo") else self.default_init(st, lv)
            return
        if init["k"] == "lambda":
            fr.env[v["id"]] = self.ev(init, st, fr)
            return
        self.declared(lv, init, st, fr, t)

    def declared(self, lv, init, st, fr, t):
        # Eigen expression templates kept by `auto`: evaluated eagerly into a plain vector
        if t["c"] == "rec" and t["n"].startswith("Eigen::") and not is_eigen_vec(t) and not is_dynvec(t):
            val = self.evr(init, st, fr)
            if isinstance(val, Vec):
                lv.ty = vec_type(len(val.c))
                self.store(st, lv, val)
                return
            if isinstance(val, T):
                lv.ty = {"c": "flt", "w": 64}
                self.store(st, lv, val)
                return
            self.store(st, lv, val)
            return
        self.construct(lv, init, st, fr)

    def s_if(self, s, st, fr):
        if s.get("init"):
            self.ex(s["init"], st, fr)
        if s.get("var"):
            self.ex(s["var"], st, fr)
        c = self.simp(st, self.evb(s["c"], st, fr))
        if c is TRUE:
            return self.ex(s["a"], st, fr)
        if c is FALSE:
            return self.ex(s.get("b"), st, fr)
        A, B = st.copy().assume(c), st.copy().assume(tm.not_(c))
        ra = self.ex(s["a"], A, fr)
        rb = self.ex(s.get("b"), B, fr)
        outs = {}
        for r in (ra, rb):
            for k, (S, v) in r.items():
                self.add_out(outs, k, S, v)
        if "n" in outs and len(outs) == 1 and len(ra) == 1 and len(rb) == 1:
            pass
        return outs

    def s_return(self, s, st, fr):
        if s.get("e") is None:
            return {"r": (st, VOID)}
        v = self.ev(s["e"], st, fr)
        if isinstance(v, LV) and not isinstance(v, Moved):
            rt = fr.fn["types"][fr.fn["ret"]] if fr.fn else None
            if rt is not None and rt["c"] != "ref":
                if self.scalar_sort(noref(v.ty)) is not None or is_eigen_vec(noref(v.ty)) or not v.root.startswith("tmp@"):
                    lv, v = v, self.rv(st, v)
                    self.moved_stream(st, lv)
        if isinstance(v, T) and fr.fn and fr.fn["types"][fr.fn["ret"]]["c"] == "bool":
            v = self.conv(v, "B")
        return {"r": (st, v)}

    def moved_stream(self, st, lv):
        """a file stream that has been moved from is not open"""
        if recname(noref(lv.ty)) == "std::basic_ofstream":
            self.write_leaf(st, lv, ("#file",), "S", tm.strc(""))

    def s_break(self, s, st, fr):
        return {"b": (st, VOID)}

    def s_continue(self, s, st, fr):
        return {"c": (st, VOID)}

    def s_try(self, s, st, fr):
        return self.ex(s["body"], st, fr)

    def s_omp(self, s, st, fr):
        if self.omp_hook:
            return self.omp_hook(self, s, st, fr)
        return self.ex(s.get("body"), st, fr)

    def s_switch(self, s, st, fr):
        if s.get("init"):
            self.ex(s["init"], st, fr)
        v = self.evt(s["c"], st, fr)
        stmts = []

        def flat(x):
            if x["k"] in ("case", "default"):
                stmts.append((x, None))
                if x.get("sub"):
                    flat(x["sub"])
            else:
                stmts.append((None, x))

        for x in s["body"]["b"]:
            flat(x)
        outs = {}
        notany = []
        entries = []
        dflt = None
        for i, (lab, x) in enumerate(stmts):
            if lab is None:
                continue
            if lab["k"] == "case":
                c = tm.eq(v, self.evt(lab["v"], st, fr))
                entries.append((c, i))
                notany.append(tm.not_(c))
            else:
                dflt = i
        entries.append((tm.and_(*notany), dflt))
        groups = {}
        for c, i in entries:
            j = i
            while j is not None and j < len(stmts) and stmts[j][0] is not None:
                j += 1
            groups.setdefault(j, []).append(c)
        for j, cs in groups.items():
            c = self.simp(st, tm.or_(*cs))
            if c is FALSE:
                continue
            S = st.copy().assume(c)
            if j is None:
                self.add_out(outs, "n", S)
                continue
            r = self.seq([x for lab, x in stmts[j:] if x is not None], S, fr)
            for k, (S2, val) in r.items():
                self.add_out(outs, "n" if k == "b" else k, S2, val)
        return outs

    # ------------------------------------------------------------------ loops
    def s_for(self, s, st, fr):
        outs = {}
        if s.get("init"):
            r = self.ex(s["init"], st, fr)
            if "n" not in r:
                return r
            st = r["n"][0]
        cond = (lambda S: self.evb(s["c"], S, fr)) if s.get("c") else (lambda S: TRUE)
        body = lambda S: self.ex(s["body"], S, fr)
        inc = (lambda S: self.ev(s["inc"], S, fr)) if s.get("inc") else (lambda S: None)
        return self.loop(st, cond, body, inc, s)

    def s_while(self, s, st, fr):
        return self.loop(st, lambda S: self.evb(s["c"], S, fr), lambda S: self.ex(s["body"], S, fr), lambda S: None, s)

    def s_do(self, s, st, fr):
        r = self.ex(s["body"], st, fr)
        outs = {}
        cur = None
        for k, (S, v) in r.items():
            if k in ("n", "c"):
                cur = S if cur is None else self.merge(cur, S)[0]
            elif k == "b":
                self.add_out(outs, "n", S)
            else:
                self.add_out(outs, k, S, v)
        if cur is not None:
            r = self.loop(cur, lambda S: self.evb(s["c"], S, fr), lambda S: self.ex(s["body"], S, fr), lambda S: None, s)
            for k, (S, v) in r.items():
                self.add_out(outs, k, S, v)
        return outs

    def container_of(self, v, st, fr, e):
        """LV of the underlying vector of a range (repo container classes are followed through begin())"""
        if isinstance(v, Moved):
            v = v.lv
        if not isinstance(v, LV):
            v = self.materialize(st, v, self.etype(e, fr))
        return v

    def s_rangefor(self, s, st, fr):
        if s.get("init"):
            self.ex(s["init"], st, fr)
        v = self.ev(s["range"], st, fr)
        cont = self.container_of(v, st, fr, s["range"])
        t = noref(cont.ty)
        if t.get("repo") and s.get("beginf"):
            b = self.prog.functions.get(s["beginf"]["key"])
            en = self.prog.functions.get(s["endf"]["key"])
            bi = self.call_fn(b, cont, [], st)
            ei = self.call_fn(en, cont, [], st)
            if not isinstance(bi, It) or not isinstance(ei, It):
                raise Unsupported("range without iterators")
            cont, lo, hi = bi.lv, bi.i, ei.i
        else:
            lo, hi = ZERO, self.size_of(st, cont)
        return self.index_loop(st, cont, lo, hi, s, fr)

    def index_loop(self, st, cont, lo, hi, s, fr):
        idx = LV(self.newroot("idx"), (), (), {"c": "int", "w": 64, "s": True})
        self.store(st, idx, lo)
        vt = fr.types[s["var"]["t"]]
        ivar = s["var"]

        def body(S):
            i = self.rv(S, idx)
            el = self.elem(S, cont, i, s, check=False)
            if "bindings" in ivar:
                n = recname(el.ty)
                if vt["c"] != "ref":
                    lv = LV(self.newroot("l:sb"), (), (), noref(vt))
                    self.store(S, lv, el)
                    el2 = lv
                else:
                    el2 = el
                for q, b in enumerate(ivar["bindings"]):
                    nm = ("first", "second")[q] if n == "std::pair" else self.fields(n)[q][0]
                    fr.env[b["id"]] = el2.field(nm, ty=noref(fr.types[b["t"]]))
            elif vt["c"] == "ref":
                fr.env[ivar["id"]] = el
            else:
                lv = LV(self.newroot("l:" + ivar["n"]), (), (), vt)
                self.store(S, lv, el)
                fr.env[ivar["id"]] = lv
            return self.ex(s["body"], S, fr)

        return self.loop(st, lambda S: tm.lt(self.rv(S, idx), hi), body, lambda S: self.incdec(idx, "++", False, S), s)

    def loop(self, st, cond, body, inc, node):
        outs = {}
        cur = st
        for n in range(MAXUNROLL):
            if node is self.norunroll or (callable(self.norunroll) and self.norunroll(node)) or (node["k"] in ("for", "while") and (node.get("c") is None or node["c"]["k"] == "bool")):
                break
            b = self.block_cursor(cur) if self.files else None
            if b is not None:
                cur = self.block_loop(b, cur, cond, body, inc, node, outs)
                if cur is None:
                    return outs
                continue
            snap = cur.copy()
            mark = (len(self.obls), len(self.exits))
            c = self.simp(cur, cond(cur))
            if c is FALSE:
                self.add_out(outs, "n", cur)
                return outs
            if c is not TRUE:
                cur = snap
                del self.obls[mark[0]:]
                del self.exits[mark[1]:]
                break
            r = body(cur)
            cur = None
            for k, (S, v) in r.items():
                if k in ("n", "c"):
                    cur = S if cur is None else self.merge(cur, S)[0]
                elif k == "b":
                    self.add_out(outs, "n", S)
                else:
                    self.add_out(outs, k, S, v)
            if cur is None:
                return outs
            inc(cur)
            if n > 200 and c is TRUE and node["k"] == "while":
                break
        else:
            raise Unsupported("loop does not terminate within the unrolling limit")
        from . import loops
        r = loops.summarise(self, cur, cond, body, inc, node)
        for k, (S, v) in r.items():
            self.add_out(outs, k, S, v)
        return outs

    def block_cursor(self, st):
        """an input file that stands at the start of a run of lines of unknown length: (cell of the position, start, end)"""
        for (root, path), f in st.cells.items():
            if path[-1:] == ("#file",):
                h = self.files.get(f)
                if h is not None and hasattr(h, "block_start"):
                    k = (root, path[:-1] + ("#pos",))
                    b = h.block_start(self.getcell(st, *k, "I"))
                    if b is not None:
                        return k, b[0], b[1]
        return None

    def block_loop(self, b, st, cond, body, inc, node, outs):
        """loop splitting: the iterations that read these lines, as a loop of its own; returns the state after them"""
        from . import loops
        k, lo, hi = b

        def guarded(S):
            p = self.getcell(S, *k, "I")
            q = tm.lt(p, hi)
            Y = S.copy().assume(tm.le(lo, p)).assume(q)
            c = self.simp(Y, self.conv(cond(Y), "B"))
            if c is not TRUE:
                raise Unsupported("a loop over the lines of a file that may stop in the middle of a block")
            N = S.copy().assume(tm.not_(q))
            Y.pc = list(S.pc) + [q]
            M, _ = self.merge(Y, N)
            S.cells, S.binds = M.cells, M.binds
            return q

        sm = loops.Summary(self, st, guarded, body, inc, node)
        r = sm.run()
        m = sm.msym(k, "I")
        if getattr(sm, "cont", None) is None or self.getcell(sm.cont, *k, "I") is not tm.add(m, ONE):
            raise Unsupported("a loop that does not read the lines of a file one by one")
        nxt = None
        for kk, (S, v) in r.items():
            if kk == "n":
                nxt = S
            else:
                self.add_out(outs, kk, S, v)
        if nxt is not None:
            p = self.getcell(nxt, *k, "I")
            if p is not hi:
                if not self.prover.prove(tm.eq(p, hi), nxt.pc).ok:
                    raise Unsupported("position in a file after a loop over its lines")
                nxt.cells[k] = hi
        return nxt

    # ------------------------------------------------------------------ library constructors
    def lib_ctor(self, lv, e, st, fr):
        from . import lib
        return lib.ctor(self, lv, e, st, fr)


def solve_idx(c):
    """#i == f  ->  {#i: f}"""
    p = c.args[0]
    for m, k in tm._poly_items(p):
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "bv" and m[0][0].args[0].startswith("#") and abs(k) == 1:
            v = m[0][0]
            rest = tm.sub(p, tm.scale(v, k))
            if v in rest.fv:
                continue
            return {v: tm.scale(rest, -1 / k)}
    return None


def vec_type(n):
    return {"c": "rec", "n": "Eigen::Matrix", "a": [{"c": "flt", "w": 64}, n, 1, 0, n, 1]}


def str_parts(t):
    if t.op == "app" and t.args[0] == "concat":
        return list(t.args[1:])
    return [t]


def str_concat(a, b):
    ps = str_parts(a) + str_parts(b)
    if any(p.op == "app" and p.args[0] == "sstr" for p in ps):  # text made by a stream: one stream of items
        items = []
        for p in ps:
            if p.op == "str":
                if p.args[0]:
                    items.append(tm.item("lit", p))
            elif p.op == "app" and p.args[0] == "sstr":
                items.append(p.args[1])
            elif p.op == "app" and p.args[0] == "to_string" and p.args[1].sort == "I":
                items.append(tm.item("int", p.args[1]))
            else:
                items.append(tm.item("text", p))
        return tm.app("sstr", (tm.cat(*items),), "S")
    out = []
    for p in ps:
        if p.op == "str" and p.args[0] == "":
            continue
        if out and out[-1].op == "str" and p.op == "str":
            out[-1] = tm.strc(out[-1].args[0] + p.args[0])
        else:
            out.append(p)
    if not out:
        return tm.strc("")
    if len(out) == 1:
        return out[0]
    return tm.app("concat", tuple(out), "S")
