"""Assumed contracts of the input/output libraries: files and streams, std::filesystem, yaml-cpp, the csv reader.

Effects on the file system are logged in order in the pseudo cell #fs.log; questions about it (exists, a failing open)
depend on the number of effects so far.  Input files are sequences of tokens, rows or lines (classes below).
"""
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE, num, arg
from .exec import Unsupported, Dead, rounded, LV, Vec, SV, Ptr, It, Moved, FnRef, VOID, as_type, noref, recname, str_concat, str_parts, strip_templates

LOG = ("#fs", ("log",))
EPOCH = ("#fs", ("epoch",))
STRT = {"c": "rec", "n": "std::basic_string", "a": []}
PATHS = ("std::filesystem::path", "std::filesystem::__cxx11::path")


def log(ex, st):
    return ex.getcell(st, LOG[0], LOG[1], "X")


def epoch(ex, st):
    return ex.getcell(st, EPOCH[0], EPOCH[1], "I")


def effect(ex, st, kind, *vals):
    st.cells[LOG] = tm.cat(log(ex, st), tm.item(kind, *vals))
    st.cells[EPOCH] = tm.add(epoch(ex, st), ONE)


def quiet(x):
    """the condition under which the log x is empty"""
    if x is tm.NIL:
        return TRUE
    if x.op == "cat":
        return tm.and_(*[quiet(i) for i in x.args])
    if x.op == "site":
        return tm.ite(x.args[0], quiet(x.args[1]), quiet(x.args[2]))
    if x.op == "sfor":
        return tm.all_(x.args[0][0], x.args[1], x.args[2], quiet(x.args[3]))
    return FALSE


def exists(ex, st, p):
    def at(ep):
        if ep.op == "ite":
            return tm.ite(ep.args[0], at(ep.args[1]), at(ep.args[2]))
        return tm.app("exists", (p, ep), "B")
    return ex.simp(st, at(epoch(ex, st)))


def sval(ex, st, v):
    v = ex.rv(st, v)
    if isinstance(v, T) and v.sort == "S":
        return v
    if isinstance(v, SV) and len(v.leaves) == 1:
        return next(iter(v.leaves.values()))
    raise Unsupported("string or path expected")


def S(name, *a):
    return tm.app_s(name, tuple(a), "S")


# ------------------------------------------------------------------ paths
def _parts(t):
    return list(t.args[1:]) if t.op == "app" and t.args[0] == "pathjoin" else [t]


def join(a, b):
    return tm.app("pathjoin", tuple(_parts(a) + _parts(b)), "S")


def _filename(a):
    p = _parts(a[0])
    if len(p) > 1:
        return S("filename", p[-1])
    if p[0].op == "str":
        return tm.strc(p[0].args[0].rsplit("/", 1)[-1])
    if p[0].op == "app" and p[0].args[0] == "filename":
        return p[0]
    return None


def _extension(a):
    f = _filename(a) or a[0]
    while f.op == "app" and f.args[0] == "filename":
        f = f.args[1]
    q = str_parts(f)
    if len(q) == 1 and q[0].op == "app" and q[0].args[0] == "sstr":
        q = [x.args[1] if x.op == "item" and x.args[0] == "lit" else x for x in tm.cat_items(q[0].args[1])] or q
    if q[-1].op == "str" and "." in q[-1].args[0] and "/" not in q[-1].args[0]:
        s = q[-1].args[0]
        i = s.rindex(".")
        if i > 0 or len(q) > 1:
            return tm.strc(s[i:])
    return None


def _parent(a):
    p = _parts(a[0])
    if len(p) > 1 and p[-1].op == "str" and "/" not in p[-1].args[0]:
        return p[0] if len(p) == 2 else tm.app("pathjoin", tuple(p[:-1]), "S")
    return None


tm.APP_SIMP["filename"] = _filename
tm.APP_SIMP["extension"] = _extension
tm.APP_SIMP["parent_path"] = _parent


def path_method(ex, name, obj, args, e, st, fr):
    if name in ("string", "c_str", "native", "generic_string", "u8string") or name.startswith("operator "):
        return sval(ex, st, obj)
    if name in ("filename", "extension", "parent_path", "stem", "lexically_normal", "root_path"):
        return S(name, sval(ex, st, obj))
    if name in ("is_absolute", "is_relative", "has_extension", "has_filename", "has_parent_path", "empty"):
        return tm.app(name, (sval(ex, st, obj),), "B")
    if name in ("append", "operator/="):
        ex.store(st, obj, join(sval(ex, st, obj), sval(ex, st, args[0])))
        return obj
    if name == "replace_extension":
        raise Unsupported("path::replace_extension")
    return None


# ------------------------------------------------------------------ functions
def call(ex, q, e, st, fr):
    base = q.rsplit("::", 1)[-1]
    if q.startswith("std::filesystem::"):
        a = [ex.ev(x, st, fr) for x in e["args"]]
        if base == "exists":
            return exists(ex, st, sval(ex, st, a[0]))
        if base in ("copy_file", "copy", "rename"):
            opt = ex.rv(st, a[2]) if len(a) > 2 else ZERO
            effect(ex, st, base, sval(ex, st, a[0]), sval(ex, st, a[1]), *([opt] if opt is not ZERO else []))
            return TRUE
        if base in ("create_directories", "create_directory"):
            p = sval(ex, st, a[0])
            there = exists(ex, st, p)
            ep, old = epoch(ex, st), log(ex, st)
            effect(ex, st, base, p)
            st.cells[EPOCH] = tm.ite(there, ep, st.cells[EPOCH])
            st.cells[LOG] = tm.cat(old, tm.site(there, tm.NIL, tm.item(base, p)))
            return tm.not_(there)
        if base in ("remove", "remove_all"):
            effect(ex, st, base, sval(ex, st, a[0]))
            return tm.app("created", (sval(ex, st, a[0]), epoch(ex, st)), "B")
        if base in ("absolute", "weakly_canonical", "canonical", "relative"):
            return S(base, *[sval(ex, st, x) for x in a])
        if base in ("is_directory", "is_regular_file", "is_empty"):
            return tm.app(base, (sval(ex, st, a[0]), epoch(ex, st)), "B")
        if base == "current_path" and not a:
            return tm.const("current_path", "S")
        if base in ("operator==", "operator!="):
            r = tm.eq(sval(ex, st, a[0]), sval(ex, st, a[1]))
            return r if base.endswith("==") else tm.not_(r)
        if base == "operator/":
            return join(sval(ex, st, a[0]), sval(ex, st, a[1]))
    if q == "YAML::LoadFile":
        return tm.app("yaml", (sval(ex, st, ex.ev(e["args"][0], st, fr)),), node_sort())
    if q in ("std::getline",):
        s, l = [ex.ev(x, st, fr) for x in e["args"][:2]]
        return infile(ex, st, s).getline(ex, st, s, l)
    if q in ("std::stod", "std::stoi", "std::stof", "std::stol"):
        r = number_of(ex, sval(ex, st, ex.ev(e["args"][0], st, fr)), "I" if base in ("stoi", "stol") else "R")
        return rounded(r, 32) if base == "stof" else r
    if q.endswith("::now") and q.startswith("std::chrono"):
        return tm.fresh("now", ex.scalar_sort(noref(fr.types[e["t"]])) or "U:time")
    if q.startswith("std::chrono") or q in ("std::localtime", "std::mktime", "std::time"):
        for x in e["args"]:
            ex.ev(x, st, fr)
        return opaque(ex, st, fr, e)
    return None


def opaque(ex, st, fr, e):
    """a value nothing is known about (wall-clock time)"""
    t = noref(fr.types[e["t"]])
    s = ex.scalar_sort(t)
    if s is not None:
        return tm.fresh("clock", s)
    lv = ex.tmp(t, "clock")
    for rel, s in ex.leaves(t):
        st.cells[(lv.root, rel)] = tm.fresh("clock", s)
    return lv


def node_sort():
    return "U:YAML::Node"


def yaml_index(ex, st, node, key):
    if isinstance(key, SV):
        key = sval(ex, st, key)
    if not isinstance(node, T) or not isinstance(key, T):
        raise Unsupported("YAML index")
    return tm.app("yat:" + key.sort, (node, key), node_sort())


def yaml_as(node, sort):
    return tm.app("yas:" + sort, (node,), sort)


def yaml_has(node):
    return tm.app("ydefined", (node,), "B")


def mcall(ex, cls, name, e, obj, st, fr):
    n = cls
    if n in PATHS:
        args = [ex.ev(x, st, fr) for x in e["args"]]
        return path_method(ex, name, obj, args, e, st, fr)
    if n == "std::fpos" and name.startswith("operator"):
        return ex.rv(st, obj)
    if n == "YAML::Node":
        node = ex.rv(st, obj)
        if name == "as":
            t = noref(fr.types[e["t"]])
            s = ex.scalar_sort(t)
            if s not in ("I", "R", "B", "S"):
                raise Unsupported("YAML as<> of another type")
            if e["args"]:
                d = ex.rv(st, ex.ev(e["args"][0], st, fr))
                return tm.ite(yaml_has(node), as_type(yaml_as(node, s), t), ex.conv(d, s))
            return as_type(yaml_as(node, s), t)
        if name in ("operator bool", "IsDefined"):
            return yaml_has(node)
        if name == "operator!":
            return tm.not_(yaml_has(node))
        if name == "operator[]":
            return yaml_index(ex, st, node, ex.rv(st, ex.ev(e["args"][0], st, fr)))
        if name.startswith("operator"):
            return yaml_has(node)
    if n in ("std::basic_string", "std::__cxx11::basic_string", "std::basic_string_view"):
        return string_method(ex, name, e, obj, st, fr)
    if n in STREAMS:
        return stream_method(ex, name, e, obj, st, fr)
    if n == "io::CSVReader":
        return csv_method(ex, name, e, obj, st, fr)
    if n.startswith("std::chrono"):
        for x in e["args"]:
            ex.ev(x, st, fr)
        return opaque(ex, st, fr, e)
    return None


STREAMS = ("std::basic_ofstream", "std::basic_ifstream", "std::basic_stringstream", "std::basic_ostringstream", "std::basic_istringstream",
           "std::basic_ostream", "std::basic_istream", "std::basic_ios", "std::ios_base", "std::basic_fstream", "std::basic_iostream")


def string_method(ex, name, e, obj, st, fr):
    if name in ("c_str", "data", "str") or name == "operator basic_string_view":
        return sval(ex, st, obj)
    if name == "find":
        args = [ex.ev(x, st, fr) for x in e["args"]]
        if len(args) > 1 and ex.rv(st, args[1]) is not ZERO:
            raise Unsupported("string::find with a position")
        return tm.app_s("find", (sval(ex, st, obj), sval(ex, st, args[0])), "I")
    if name in ("empty",):
        return tm.eq(sval(ex, st, obj), tm.strc(""))
    if name in ("size", "length"):
        return tm.app_s("strlen", (sval(ex, st, obj),), "I")
    if name in ("append", "operator+=") and len(e["args"]) == 1:
        ex.store(st, obj, str_concat(sval(ex, st, obj), sval(ex, st, ex.ev(e["args"][0], st, fr))))
        return obj
    if name == "compare" and len(e["args"]) == 1:
        return tm.ite(tm.eq(sval(ex, st, obj), sval(ex, st, ex.ev(e["args"][0], st, fr))), ZERO, tm.fresh("compare", "I"))
    return None


def stream_method(ex, name, e, obj, st, fr):
    if isinstance(obj, Ptr):
        obj = obj.lv
    if isinstance(obj, Moved):
        obj = obj.lv
    root = getattr(obj, "root", "")
    n = recname(obj.ty) if isinstance(obj, LV) else None
    if name in ("str",) and not e["args"] and has(ex, obj, "#out"):
        return S("sstr", ex.read_leaf(st, obj, ("#out",), "X"))
    if name == "tellp" and has(ex, obj, "#out"):
        return tm.app_s("bytelen", (ex.read_leaf(st, obj, ("#out",), "X"),), "I")
    if name == "write" and has(ex, obj, "#out"):
        p = ex.rv(st, ex.ev(e["args"][0], st, fr))
        size = ex.rv(st, ex.ev(e["args"][1], st, fr))
        from .lib import emit, typetag
        if not isinstance(p, Ptr):
            raise Unsupported("write of other memory than one object")
        if getattr(p, "vec", None) is not None:  # data() of a fixed-size vector
            v = ex.rv(st, p.vec)
            if not tm.isnum(size) or not isinstance(v, Vec) or tm.cval(size) not in [8 * k for k in range(1, len(v.c) + 1)]:
                raise Unsupported("write of part of a vector")
            for k in range(int(tm.cval(size)) // 8):
                emit(ex, st, obj, tm.item("bin", tm.strc("f64"), v.c[k], num(8)))
            return obj
        v = ex.rv(st, p.lv)
        if not isinstance(v, T):
            raise Unsupported("write of an aggregate")
        emit(ex, st, obj, tm.item("bin", tm.strc(typetag(p.lv.ty)), v, size))
        return obj
    if name in ("precision", "width", "fill", "setf", "flags") and has(ex, obj, "#fmt"):
        if name == "precision" and len(e["args"]) == 1:
            from .lib import fmt_of, mkfmt
            w, f, p, fl = fmt_of(ex.read_leaf(st, obj, ("#fmt",), "F"))
            ex.write_leaf(st, obj, ("#fmt",), "F", mkfmt(w, f, ex.rv(st, ex.ev(e["args"][0], st, fr)), fl))
            return p
        raise Unsupported("stream format member " + name)
    if name in ("fail", "bad", "operator!", "operator bool", "good", "is_open", "eof"):
        if root in ("g:std::cin",):
            if name in ("fail", "bad", "operator!", "eof"):
                return tm.app("cinfail", (cinpos(ex, st),), "B")
            return tm.not_(tm.app("cinfail", (cinpos(ex, st),), "B"))
        f = failed(ex, st, obj)
        if name == "bad":
            raise Unsupported("stream bad()")
        return f if name in ("fail", "operator!") else tm.not_(f) if name != "eof" else tm.fresh("eof", "B")
    if name == "open":
        if not all(plain_mode(a) for a in e["args"][1:]):
            raise Unsupported("open mode")
        open_file(ex, st, obj, sval(ex, st, ex.ev(e["args"][0], st, fr)))
        return VOID
    if name in ("flush",):
        return obj
    if name == "close":
        if has(ex, obj, "#out"):
            return VOID
        return VOID
    if name == "clear" and has(ex, obj, "#pos"):
        return VOID
    if name == "seekg" and has(ex, obj, "#pos"):
        a = ex.rv(st, ex.ev(e["args"][0], st, fr))
        if a is not ZERO:
            raise Unsupported("seekg to another position than the start")
        ex.write_leaf(st, obj, ("#pos",), "I", ZERO)
        return obj
    return None


def has(ex, obj, leaf):
    return isinstance(obj, LV) and any(rel == (leaf,) for rel, _ in ex.leaves(obj.ty))


def failed(ex, st, obj):
    if isinstance(obj, T) and obj.sort == "B":  # the result of getline
        return tm.not_(obj)
    if has(ex, obj, "#file"):
        f = ex.read_leaf(st, obj, ("#file",), "S")
        h = handler(ex, obj, f)
        if h is not None:
            return h.failed(ex, st, obj)
        if has(ex, obj, "#out"):
            if f is tm.strc(""):
                return FALSE
            return tm.app("openfails", (f, epoch_of(ex, st, obj)), "B")
        return tm.app("unreadable", (f,), "B")
    raise Unsupported("stream state")


def epoch_of(ex, st, obj):
    return ZERO


def open_file(ex, st, lv, path):
    if has(ex, lv, "#out"):
        effect(ex, st, "open", path)
        ex.write_leaf(st, lv, ("#out",), "X", tm.NIL)
        ex.write_leaf(st, lv, ("#fmt",), "F", tm.const("fmt0", "F"))
        ex.write_leaf(st, lv, ("#file",), "S", path)
    else:
        ex.write_leaf(st, lv, ("#pos",), "I", ZERO)
        ex.write_leaf(st, lv, ("#lpos",), "I", ZERO)
        ex.write_leaf(st, lv, ("#file",), "S", path)


def cinpos(ex, st):
    return ex.getcell(st, "#cin", ("pos",), "I")


# ------------------------------------------------------------------ input files
class Tokens:
    """a file as a sequence of whitespace-separated tokens; every extraction finds one of the asked type (well-formed file)"""

    def __init__(self, tok):
        self.tok = tok  # (position term, sort) -> term

    def failed(self, ex, st, obj):
        return FALSE

    def extract(self, ex, st, lv, dst):
        p = ex.read_leaf(st, lv, ("#pos",), "I")
        s = ex.scalar_sort(dst.ty)
        if s not in ("I", "R"):
            raise Unsupported("extraction of another type")
        ex.store(st, dst, as_type(self.tok(p, s), dst.ty))
        ex.write_leaf(st, lv, ("#pos",), "I", tm.add(p, ONE))
        return lv

    def getline(self, ex, st, lv, dst):
        raise Unsupported("getline on a token file")


def handler(ex, s, f):
    """contents of the file or string a stream reads"""
    if recname(noref(s.ty)) == "std::basic_istringstream":
        return line_file(f)
    return ex.files.get(f)


def infile(ex, st, s):
    if isinstance(s, Moved):
        s = s.lv
    f = ex.read_leaf(st, s, ("#file",), "S")
    h = handler(ex, s, f)
    if h is None:
        raise Unsupported("input file of unknown shape")
    return h


def number_of(ex, s, sort):
    toks = line_tokens(s)
    if toks is not None:
        if len(toks) == 0:
            raise Unsupported("number expected")
        return token_value(toks[0], sort)
    return tm.app("stonum:" + sort, (s,), sort)


# lines are strings sstr(stream); tokens are the items between blanks
def line_tokens(s):
    """tokens (item lists) of a line given as string term; None if its shape is not known"""
    if s.op == "str":
        return [[tm.item("lit", tm.strc(w))] for w in s.args[0].split()]
    if s.op == "app" and s.args[0] == "sstr":
        return split_tokens(tm.cat_items(s.args[1]))
    return None


def split_tokens(items, seps=" \t\n\r"):
    out, cur = [], []
    for it in items:
        if it.op != "item":
            return None
        if it.args[0] == "lit":
            w = ""
            for ch in it.args[1].args[0]:
                if ch in seps:
                    if w:
                        cur.append(tm.item("lit", tm.strc(w)))
                        w = ""
                    if cur:
                        out.append(cur)
                        cur = []
                else:
                    w += ch
            if w:
                cur.append(tm.item("lit", tm.strc(w)))
        elif it.args[0] in ("int", "real"):
            cur.append(it)
        else:
            return None
    if cur:
        out.append(cur)
    return out


def printed(it):
    """value read back from a printed number"""
    return tm.app("printed", tuple(it.args[1:]), "R")


def token_value(tok, sort):
    if len(tok) != 1:
        raise Unsupported("token of several items")
    it = tok[0]
    if it.args[0] == "int":
        if len(it.args) > 2:
            raise Unsupported("padded number")
        return it.args[1]
    if it.args[0] == "real":
        if sort == "I":
            raise Unsupported("a printed double is read as an integer")
        return printed(it)
    try:
        from fractions import Fraction
        v = Fraction(it.args[1].args[0])
    except ValueError:
        raise Unsupported("token is not a number")
    if sort == "I" and v.denominator != 1:
        raise Unsupported("token is not an integer")
    return num(v)


class Line:
    """a string being read by an istringstream"""

    def __init__(self, toks):
        self.toks = toks

    def failed(self, ex, st, obj):
        p = ex.read_leaf(st, obj, ("#pos",), "I")
        if not tm.isnum(p):
            raise Unsupported("symbolic position in a line")
        return tm.boolc(tm.cval(p) > len(self.toks))

    def extract(self, ex, st, lv, dst):
        p = ex.read_leaf(st, lv, ("#pos",), "I")
        if not tm.isnum(p):
            raise Unsupported("symbolic position in a line")
        i = int(tm.cval(p))
        if i < len(self.toks):
            v = token_value(self.toks[i], ex.scalar_sort(dst.ty))
            ex.store(st, dst, as_type(v, dst.ty) if isinstance(v, T) and v.sort in ("I", "R") else v)
        ex.write_leaf(st, lv, ("#pos",), "I", num(min(i, len(self.toks)) + 1))
        return lv


def line_file(f):
    t = line_tokens(f)
    return Line(t) if t is not None else None


def _find(a):
    """npos when the needle cannot occur: decided for literals and printed numbers"""
    s, n = a
    if n.op != "str":
        return None
    NPOS = num(2 ** 64 - 1)
    if s.op == "str":
        i = s.args[0].find(n.args[0])
        return num(i) if i >= 0 else NPOS
    if s.op == "app" and s.args[0] == "sstr":
        items = tm.cat_items(s.args[1])
        if not all(x.op == "item" and x.args[0] in ("lit", "int", "real") for x in items):
            return None
        pos = 0
        for x in items:  # an occurrence before the first number has a known position
            if x.args[0] != "lit":
                break
            i = x.args[1].args[0].find(n.args[0])
            if i >= 0:
                return num(pos + i)
            pos += len(x.args[1].args[0])
        if any(x.args[0] == "lit" and n.args[0] in x.args[1].args[0] for x in items):
            return tm.app("foundat", a, "I")  # somewhere; below npos (see find_pos)
        if not may_occur(items, n.args[0]):
            return NPOS
        return None
    return None


NUMBER = set("0123456789+-.einfa")  # characters of a printed number, nan and inf included


def may_occur(items, w):
    """can the word occur in the text of literals and printed numbers?"""
    segs = [x.args[1].args[0] if x.args[0] == "lit" else None for x in items]
    seen = set()

    def go(k, o, p):
        """the rest w[p:] matched from offset o of segment k on"""
        if p == len(w):
            return True
        if k == len(segs) or (k, o, p) in seen:
            return False
        seen.add((k, o, p))
        if segs[k] is None:
            # one character of the number, then more of it or the next segment
            return w[p] in NUMBER and (go(k, 0, p + 1) or go(k + 1, 0, p + 1))
        if o == len(segs[k]):
            return go(k + 1, 0, p)
        return segs[k][o] == w[p] and go(k, o + 1, p + 1)

    return any(go(k, o, 0) for k in range(len(segs)) for o in (range(len(segs[k])) if segs[k] is not None else [0]))


tm.APP_SIMP["find"] = _find


class Lines:
    """a text file as segments: ("line", stream) and ("block", n, index variable, stream of one line)"""

    def __init__(self, segs, open_end=False):
        self.segs = []
        self.open_end = open_end  # the file goes on with lines nothing is known about
        pos = ZERO
        for s in segs:
            n = ONE if s[0] == "line" else s[1]
            self.segs.append((pos, tm.add(pos, n), s))
            pos = tm.add(pos, n)
        self.end = pos

    def failed(self, ex, st, obj):
        return FALSE

    def at(self, p):
        """(segment, offset) of line p when that is syntactically clear"""
        for lo, hi, s in self.segs:
            if tm.sub(p, lo) is ZERO and (s[0] == "line"):
                return s, ZERO, lo, hi
        if tm.sub(p, self.end) is ZERO:
            if self.open_end:
                raise Unsupported("reads on into the unknown part of a file")
            return None, ZERO, p, p
        return False

    def block(self, ex, st, p):
        """the block that line p lies in, entailed by the path condition"""
        for lo, hi, s in self.segs:
            if s[0] == "block":
                g = tm.and_(tm.le(lo, p), tm.lt(p, hi))
                if all(any(x is y for y in st.pc) or x is TRUE for x in ([tm.le(lo, p), tm.lt(p, hi)])) or ex.prover.prove(g, st.pc).ok:
                    return s, tm.sub(p, lo), lo, hi
        return None

    def end_of_block(self, p):
        return any(s[0] == "block" and tm.sub(p, hi) is ZERO for lo, hi, s in self.segs)

    def block_start(self, p):
        for lo, hi, s in self.segs:
            if s[0] == "block" and tm.sub(p, lo) is ZERO:
                return lo, hi
        return None

    def getline(self, ex, st, lv, dst):
        p = ex.read_leaf(st, lv, ("#pos",), "I")
        r = self.at(p)
        if r is False:
            r = self.block(ex, st, p)
            if r is None:
                raise Unsupported("line position not known")
        s, off, lo, hi = r
        if s is None:
            return FALSE
        x = s[1] if s[0] == "line" else tm.subst(s[3], {s[2]: off})
        ex.store(st, dst, S("sstr", x))
        ex.write_leaf(st, lv, ("#pos",), "I", tm.add(p, ONE))
        return TRUE


def lines_of(stream):
    """split an output stream into line segments; blocks are loops whose body prints exactly one line"""
    segs, cur = [], []
    for it in tm.cat_items(stream):
        if it.op == "item" and it.args[0] == "lit":
            parts = it.args[1].args[0].split("\n")
            for i, w in enumerate(parts):
                if i:
                    segs.append(("line", tm.cat(*cur)))
                    cur = []
                if w:
                    cur.append(tm.item("lit", tm.strc(w)))
        elif it.op == "sfor":
            if cur:
                raise Unsupported("loop output in the middle of a line")
            (v,), lo, hi, body = it.args[0], it.args[1], it.args[2], it.args[3]
            sub = lines_of(body)
            if len(sub) != 1 or sub[0][0] != "line":
                raise Unsupported("loop that prints other than one line per iteration")
            segs.append(("block", tm.sub(hi, lo), v, tm.subst(sub[0][1], {v: tm.add(v, lo)})))
        elif it.op == "item":
            cur.append(it)
        else:
            raise Unsupported("stream of unknown shape")
    if cur:
        raise Unsupported("last line without a line break")
    return segs


# ------------------------------------------------------------------ csv reader
class CsvFile:
    """header: fn(name) -> Bool (column present); value: fn(name, row, sort); rows: number of rows; line(k): k-th line before the header"""

    def __init__(self, present, value, rows, line):
        self.present, self.value, self.rows, self.line = present, value, rows, line


def csv_method(ex, name, e, obj, st, fr):
    f = ex.read_leaf(st, obj, ("#file",), "S")
    h = ex.files.get(f)
    if not isinstance(h, CsvFile):
        raise Unsupported("csv file of unknown shape")
    if name == "next_line":
        k = ex.read_leaf(st, obj, ("#lpos",), "I")
        ex.write_leaf(st, obj, ("#lpos",), "I", tm.add(k, ONE))
        return h.line(k)
    args = [ex.ev(x, st, fr) for x in e["args"]]
    if name == "read_header":
        pol = ex.rv(st, args[0])
        names = []
        for a in args[1:]:
            v = ex.rv(st, a)
            if not isinstance(v, T) or v.op != "str":
                raise Unsupported("column name")
            names.append(v.args[0])
        k = ex.read_leaf(st, obj, ("#lpos",), "I")
        if not (tm.isnum(k) and tm.cval(k) == 2):
            h.problem = "the header is not read from the third line"
        obj_names(ex)[obj.key()] = names
        return VOID
    if name == "read_row":
        names = obj_names(ex).get(obj.key())
        if names is None or len(names) != len(args):
            raise Unsupported("read_row without matching header")
        r = ex.read_leaf(st, obj, ("#pos",), "I")
        more = tm.lt(r, h.rows)
        for nm, a in zip(names, args):
            if not isinstance(a, LV):
                raise Unsupported("read_row target")
            s = ex.scalar_sort(a.ty)
            old = ex.rv(st, a)
            pres = h.present(nm)
            v = h.value(nm, r, s)
            if s in ("I", "R"):
                v = as_type(v, a.ty)
            ex.store(st, a, tm.ite(tm.and_(more, pres), v, old))
        ex.write_leaf(st, obj, ("#pos",), "I", tm.ite(more, tm.add(r, ONE), r))
        return more
    return None


def obj_names(ex):
    if not hasattr(ex, "csvnames"):
        ex.csvnames = {}
    return ex.csvnames


# ------------------------------------------------------------------ operators and constructors
def opcall(ex, op, e, vals, st, fr):
    t0 = noref(ex.etype(e["args"][0], fr)) if e["args"] else None
    n = recname(t0) if t0 else None
    if op in ("==", "!=") and n == "std::fpos":
        return None
    if op == "/" and n in PATHS:
        return join(sval(ex, st, vals[0]), sval(ex, st, vals[1]))
    if op == "/=" and n in PATHS:
        ex.store(st, vals[0], join(sval(ex, st, vals[0]), sval(ex, st, vals[1])))
        return vals[0]
    if op == ">>":
        s = vals[0].lv if isinstance(vals[0], Moved) else vals[0]
        d = vals[1]
        if isinstance(s, LV) and s.root == "g:std::cin":
            p = cinpos(ex, st)
            old = ex.rv(st, d)
            so = ex.scalar_sort(d.ty)
            v = as_type(tm.app("cin:" + so, (p,), so), d.ty)
            if getattr(ex, "cin_hook", None):
                ex.cin_hook(st, v)
            ex.store(st, d, v)
            st.cells[("#cin", ("pos",))] = tm.add(p, ONE)
            return s
        if isinstance(s, LV) and isinstance(d, LV):
            return infile(ex, st, s).extract(ex, st, s, d)
        raise Unsupported("operator>>")
    if n and n.startswith("std::chrono"):
        return opaque(ex, st, fr, e)
    if n == "YAML::Node" and op == "!":
        return tm.not_(yaml_has(ex.rv(st, vals[0])))
    if n in STREAMS and op == "!":
        return failed(ex, st, vals[0])
    return None


def ctor(ex, q, n, lv, e, st, fr):
    if n in PATHS:
        if not e["args"]:
            return tm.strc("")
        v = sval(ex, st, ex.ev(e["args"][0], st, fr))
        ex.store(st, lv, v)
        return v
    if n == "YAML::Node":
        if not e["args"]:
            return None
        v = ex.rv(st, ex.ev(e["args"][0], st, fr))
        ex.store(st, lv, v)
        return v
    if n in ("std::basic_ofstream", "std::basic_ifstream", "std::basic_istringstream"):
        ns = [a for a in e["args"] if not (ex.etype(a, fr) and noref(ex.etype(a, fr))["c"] in ("enum", "int") and a["k"] != "zero" and False)]
        if has(ex, lv, "#out"):
            ex.write_leaf(st, lv, ("#out",), "X", tm.NIL)
            ex.write_leaf(st, lv, ("#fmt",), "F", tm.const("fmt0", "F"))
            ex.write_leaf(st, lv, ("#file",), "S", tm.strc(""))
        else:
            ex.write_leaf(st, lv, ("#pos",), "I", ZERO)
            ex.write_leaf(st, lv, ("#lpos",), "I", ZERO)
            ex.write_leaf(st, lv, ("#file",), "S", tm.strc(""))
        args = [a for a in e["args"]]
        if args:
            src = ex.ev(args[0], st, fr)
            if isinstance(src, Moved):
                src = src.lv
            if isinstance(src, (LV, SV)) and recname(noref(src.ty)) == n:  # moved from another stream
                ex.store(st, lv, ex.rv(st, src) if isinstance(src, LV) else src)
                if isinstance(src, LV):
                    ex.write_leaf(st, src, ("#file",), "S", tm.strc(""))
                return VOID
        if args and n != "std::basic_istringstream":
            if len(args) > 1 and not all(plain_mode(a) for a in args[1:]):
                raise Unsupported("open mode")
            open_file(ex, st, lv, sval(ex, st, ex.ev(args[0], st, fr)))
        elif args:
            ex.write_leaf(st, lv, ("#file",), "S", sval(ex, st, ex.ev(args[0], st, fr)))
        return VOID
    if n == "io::CSVReader":
        ex.write_leaf(st, lv, ("#pos",), "I", ZERO)
        ex.write_leaf(st, lv, ("#lpos",), "I", ZERO)
        ex.write_leaf(st, lv, ("#file",), "S", sval(ex, st, ex.ev(e["args"][0], st, fr)))
        return VOID
    if n and n.startswith("std::chrono") or n == "std::tm":
        for rel, s in ex.leaves(lv.ty):
            ex.write_leaf(st, lv, rel, s, tm.fresh("clock", s, tuple(arg(i) for i in range(rel.count("[]")))))
        return VOID
    if n == "std::runtime_error" or (n and n.endswith("_error")):
        return VOID
    return None


MODES = {"out", "in", "binary", "trunc"}


def plain_mode(a, seen=None):
    """an open mode that starts with an empty (output) or unread (input) file: out, in, binary, trunc and unions of these"""
    if a.get("k") == "ref":
        g = a.get("global", "")
        return (g.startswith("std::ios_base::") or g.startswith("std::ios::")) and g.rsplit("::", 1)[-1] in MODES
    kids = [v for v in list(a.get("args", ())) + [a.get("a"), a.get("b"), a.get("e")] if isinstance(v, dict)]
    if a.get("k") in ("call", "opcall", "bin", "cast", "mat", "paren") and kids:
        return a.get("op", "|") in ("|",) and all(plain_mode(k) for k in kids)
    return False
