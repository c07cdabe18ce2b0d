"""The file formats, as streams over an abstract particle set (shared by C16-C19)."""
from fractions import Fraction
from .. import terms as tm, iolib, spec
from ..check import Missing
from ..exec import LV, State
from ..check import MAXELEM
from ..terms import ZERO, ONE, num


def lit(s):
    return tm.item("lit", tm.strc(s))


def rl(x):
    return tm.item("real", x)


def it(x):
    return tm.item("int", x)


def loop(n, body):
    i = tm.bv("row", "I")
    return tm.sfor(i, ZERO, n, body(i))


def joined(sep, items):
    out = []
    for k, x in enumerate(items):
        if k:
            out.append(lit(sep))
        out.append(x)
    return out


def prof_stream(pv, time):
    row = lambda i: tm.cat(*joined(" ", [it(pv.type(i))] + [rl(x) for f in ("position", "velocity") for x in pv.vec(f, i)]), lit("\n"))
    return tm.cat(rl(time), lit("\n"), it(pv.N), lit("\n"), loop(pv.N, row))


def csv_stream(pv, time):
    row = lambda i: tm.cat(*joined(",", [it(pv.type(i)), it(pv.init("fluidType", i, sort="I"))] + [rl(x) for f in ("position", "velocity") for x in pv.vec(f, i)]), lit("\n"))
    return tm.cat(rl(time), lit("\n"), it(pv.N), lit("\ntype,fluidType,x,y,z,vx,vy,vz\n"), loop(pv.N, row))


def arrays(pv, n0):
    """(section, type, name, components, values of particle i) of every array of a VTU file"""
    f = lambda field, sort="R": (lambda i: [pv.init(field, i, sort=sort)])
    return [
        ("Points", "Float64", "Position", 3, lambda i: pv.vec("position", i)),
        ("PointData", "Int32", "Particle Type", 1, lambda i: [pv.type(i)]),
        ("PointData", "Float64", "Velocity", 3, lambda i: pv.vec("velocity", i)),
        ("PointData", "Float64", "Pressure", 1, f("pressure")),
        ("PointData", "Float64", "Number Density", 1, f("numberDensity")),
        ("PointData", "Float64", "Number Density Ratio", 1, lambda i: [tm.div(pv.init("numberDensity", i), n0)]),
        ("PointData", "Int32", "Boundary Condition", 1, f("boundaryCondition", "I")),
        ("PointData", "Int32", "Fluid Type", 1, f("fluidType", "I")),
        ("Cells", "Int64", "connectivity", 1, lambda i: [i]),
        ("Cells", "Int64", "offsets", 1, lambda i: [tm.add(i, ONE)]),
        ("Cells", "UInt8", "types", 1, lambda i: [ONE]),
    ]


TAG = {"Float64": ("f64", 8), "Int32": ("s32", 4), "Int64": ("s64", 8), "UInt8": ("u8", 1)}
HEAD = "<?xml version='1.0' encoding='UTF-8'?>\n<VTKFile type=\"UnstructuredGrid\" version=\"1.0\" header_type=\"UInt64\" byte_order=\"LittleEndian\">\n<UnstructuredGrid>\n"
PIECE = ['<Piece NumberOfPoints="', '" NumberOfCells="', '">\n']


def sections(pv, n0, body):
    """the document up to the end of the piece; body(type, name, components, values) prints one array"""
    out = [lit(HEAD + PIECE[0]), it(pv.N), lit(PIECE[1]), it(pv.N), lit(PIECE[2])]
    cur = None
    for sec, ty, nm, nc, fn in arrays(pv, n0):
        if sec != cur:
            if cur:
                out.append(lit(f"</{cur}>\n"))
            out.append(lit(f"<{sec}>\n"))
            cur = sec
        out += body(ty, nm, nc, fn)
    return out + [lit(f"</{cur}>\n</Piece>\n<FieldData>\n")]


def vtu_ascii(pv, n0, time):
    def body(ty, nm, nc, fn):
        p = rl if ty == "Float64" else it
        return [lit(f'<DataArray type="{ty}" Name="{nm}" NumberOfComponents="{nc}" format="ascii">\n'),
                loop(pv.N, lambda i: tm.cat(*joined(" ", [p(x) for x in fn(i)]), lit("\n"))), lit("</DataArray>\n")]
    return tm.cat(*sections(pv, n0, body), lit('<DataArray type="Float64" Name="Time" NumberOfTuples="1" format="ascii">\n'), rl(time),
                  lit("\n</DataArray>\n</FieldData>\n</UnstructuredGrid>\n</VTKFile>\n"))


def vtu_binary(pv, n0, time):
    data, pos = [], [ZERO]

    def put(ty, nc, n, content):
        """appended: an 8-byte count followed by that many bytes; returns where the count stands"""
        tag, size = TAG[ty]
        at = pos[0]
        count = tm.mul(n, num(nc * size))
        data.append(tm.item("bin", tm.strc("u64"), count, num(8)))
        data.append(content(lambda x: tm.item("bin", tm.strc(tag), x, num(size))))
        pos[0] = tm.add(at, num(8), count)
        return at

    def body(ty, nm, nc, fn):
        at = put(ty, nc, pv.N, lambda b: loop(pv.N, lambda i: tm.cat(*[b(x) for x in fn(i)])))
        return [lit(f'<DataArray type="{ty}" Name="{nm}" NumberOfComponents="{nc}" format="appended" offset="'), it(at), lit('">\n</DataArray>\n')]

    out = sections(pv, n0, body)
    at = put("Float64", 1, ONE, lambda b: b(time))
    return tm.cat(*out, lit('<DataArray type="Float64" Name="Time" NumberOfTuples="1" format="appended" offset="'), it(at),
                  lit('"/>\n</FieldData>\n</UnstructuredGrid>\n<AppendedData encoding="raw">\n_'), *data, lit("\n</AppendedData>\n</VTKFile>\n"))


def written(ex, st, path):
    """contents of the output files opened under that path"""
    return [st.cells[(r, ("#out",))] for (r, p), v in list(st.cells.items()) if p == ("#file",) and v is path and (r, ("#out",)) in st.cells]


def export(c, method, want, args=(), ex=None, hyps=()):
    """the exporter writes exactly one file, with that content"""
    ex = ex or c.executor()
    path, time = tm.const("path", "S"), tm.const("time", "R")
    _, st, _ = c.run("ParticlesExporter::" + method, "ParticlesExporter", ex=ex, args=[path, time] + list(args))
    pv = spec.PView(ex, "this", ("particles",))
    hy = list(st.pc) + [tm.le(ZERO, pv.N)] + list(hyps)
    outs = written(ex, st, path)
    with c.replay_decides():
        log = iolib.log(ex, st)
        c.fact("writes the file and does nothing else to the file system", log.op == "item" and log.args[0] == "open" and log.args[1] is path and len(outs) == 1, tm.show(log)[:300])
        if len(outs) != 1:
            return ex, pv, None
        c.eq("content", outs[0], want(ex, pv, time), hy)
        unwritable = tm.app("openfails", (path, ZERO), "B")
        for k, pc, S, where in ex.exits:
            c.prove(f"ends at {where} only if the file cannot be opened", unwritable, pc)
            if k == "exit":
                c.prove(f"error status at {where}", tm.not_(tm.eq(S.cells[("#exit", ())], ZERO)), pc)
        c.frame("frame", ex, st, lambda q: False, hy)
    c.cover("a file is written", hy + [tm.lt(num(2), pv.N)])
    c.safety(ex, hyps=[tm.le(ZERO, pv.N)] + list(hyps), kinds=("index", "bounds", "null", "div"))
    return ex, pv, outs[0]


# ------------------------------------------------------------------ reading back
def row_loop(stream):
    """an output stream as (lines before, number of rows, row variable, row stream); the rows come last"""
    segs = iolib.lines_of(stream)
    if not segs or segs[-1][0] != "block" or any(s[0] != "line" for s in segs[:-1]):
        raise Missing("the file is not a few lines followed by one row per particle")
    return [s[1] for s in segs[:-1]], segs[-1][1], segs[-1][2], segs[-1][3]


def toks(stream, seps=" \t\n\r"):
    t = iolib.split_tokens(tm.cat_items(stream), seps)
    if t is None:
        raise Missing("a line of unknown shape")
    return t


def token_file(stream):
    """the exporter's stream as a sequence of whitespace-separated tokens"""
    head, n, v, row = row_loop(stream)
    pre = [t for l in head for t in toks(l)]
    rt = toks(row)

    def tok(p, sort):
        if tm.isnum(p) and tm.cval(p) < len(pre):
            return iolib.token_value(pre[int(tm.cval(p))], sort)
        q = tm.sub(p, num(len(pre)))
        k = len(rt)
        for j in range(k):
            i = tm.mul(tm.sub(q, num(j)), num(Fraction(1, k)))
            if all(c.denominator == 1 for m, c in tm._poly_items(i)):
                return tm.subst(iolib.token_value(rt[j], sort), {v: i})
        return None

    names = {so: f"token of {id(tok)}:{so}" for so in ("I", "R")}
    for so, nm in names.items():
        tm.APP_SIMP[nm] = lambda a, so=so: tok(a[0], so)
    return iolib.Tokens(lambda p, so: tm.app_s(names[so], (p,), so)), n


def csv_file(stream):
    """the exporter's stream as a CSV file: two lines, the header, the rows"""
    head, n, v, row = row_loop(stream)
    if len(head) != 3:
        raise Missing("the header is not in the third line")
    names = [toks(x, ",") for x in [head[2]]][0]
    names = [t[0].args[1].args[0] for t in names]
    rt = toks(row, ",")
    if len(rt) != len(names):
        raise Missing("rows and header have different lengths")

    def value(nm, r, sort):
        return tm.subst(iolib.token_value(rt[names.index(nm)], sort), {v: r}) if nm in names else tm.const("absent:" + nm, sort)

    return iolib.CsvFile(lambda nm: tm.boolc(nm in names), value, n, lambda k: iolib.S("sstr", head[int(tm.cval(k))])), n


def loaded(c, ex, q, path, dens, hyps, n, want, pre="", start=None, this=None):
    """the loader returns the start time and n particles with the given values"""
    st0 = State()
    for h in hyps:
        st0.assume(h)
    ex.sizes = [tm.le(n, num(MAXELEM))]
    _, st, v = c.run(q, q.rsplit("::", 1)[0], ex=ex, st=st0, args=[path, dens])
    hy = list(st.pc)
    c.cover(pre + "a file is loaded", hy + [tm.lt(num(2), n)])
    o = v if isinstance(v, LV) else ex.materialize(st, v, v.ty)
    g = lambda s, *p: ex.read_leaf(st, LV(o.root, o.path, o.idxs, o.ty), p, s)
    c.eq(pre + "start time", g("R", "first"), start, hy)
    c.eq(pre + "one particle per row", g("I", "second", "particles", "#size"), n, hy)
    i = tm.const("i", "I")
    at = hy + [tm.le(ZERO, i), tm.lt(i, n)]
    el = lambda s, *f: ex.read_leaf(st, LV(o.root, o.path + ("second", "particles", "[]"), o.idxs + (i,), c.rec("Particle")), f, s)
    c.eq(pre + "id is the index", el("I", "id"), i, at)
    for f, s, w in want(i):
        c.eq(pre + ".".join(f), el(s, *f), w, at)
    c.frame(pre + "frame", ex, st, lambda q_: False, hy)
    c.fact(pre + "nothing is written", iolib.log(ex, st) is tm.NIL, tm.show(iolib.log(ex, st)))
    for k, pc, S, where in ex.exits:
        c.prove(f"{pre}a well-formed file is not rejected at {where}", tm.FALSE, pc)
    return st


def fields(ty, ft, pos, vel, d):
    return [(("type",), "I", ty), (("fluidType",), "I", ft)] + [(("position", str(a)), "R", pos[a]) for a in range(3)] + \
           [(("velocity", str(a)), "R", vel[a]) for a in range(3)] + [(("density",), "R", d)]
