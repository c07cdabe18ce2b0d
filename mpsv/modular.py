"""Modular frame contracts: each function is verified once, callers see only its inferred modifies-set."""
from . import terms as tm
from . import ir
from .exec import LV, noref, recname, strip_templates, VOID
from .check import Missing


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def callees(prog, fn):
    """repo functions called in the body: [(declared key, qualified name, virtual)]"""
    out = []
    for n in walk([fn.get("body"), fn.get("inits")]):
        f = n.get("f")
        if isinstance(f, dict) and f.get("repo") and n.get("k") in ("call", "mcall", "opcall"):
            out.append((f["key"], strip_templates(f["q"]), bool(f.get("virt")) and not n.get("nonvirt")))
    return out


class Modular:
    """units(q, fn) says which functions get a contract of their own; others are inlined"""

    def __init__(self, c, units, verify_unit, post):
        self.c, self.units, self.verify_unit, self.post = c, units, verify_unit, post
        self.mods = {}  # key -> {(root, path): sort}
        self.done = {}
        self.n = 0

    def targets(self, key, virt):
        fs = self.c.prog.functions
        f = fs.get(key)
        out = []
        if f is not None and f.get("body") is not None:
            out.append(f)
        if virt:
            out += [g for g in self.c.prog.overriders(key) if g is not f]
        return out

    def unit(self, fn, path=()):
        """verify fn (callees first); returns its modifies-set"""
        k = fn["key"]
        if k in self.mods:
            return self.mods[k]
        if k in path:
            raise Missing("recursive call of " + fn["q"])
        handlers = self.collect(fn, path + (k,), set())
        self.mods[k] = self.verify_unit(self, fn, handlers)
        return self.mods[k]

    def collect(self, fn, path, seen):
        """handlers for the unit callees reachable from fn through inlined functions"""
        ext, virtual = {}, {}
        for key, q, virt in callees(self.c.prog, fn):
            if key in seen:
                continue
            seen.add(key)
            ts = self.targets(key, virt)
            if not ts:
                continue
            if virt or any(self.units(t) for t in ts):
                if not all(self.units(t) for t in ts):
                    continue
                ms = [(t, self.unit(t, path)) for t in ts]
                (virtual if virt else ext)[q] = self.handler(ms)
                if virt:
                    for t in ts:
                        ext[strip_templates(t["q"])] = self.handler([(t, self.mods[t["key"]])])
            else:
                for t in ts:
                    e, v = self.collect(t, path, seen)
                    ext.update(e)
                    virtual.update(v)
        return ext, virtual

    def handler(self, ms):
        def h(ex, e, obj, args, st):
            return self.apply(ex, ms, obj, args, st)
        return h

    def apply(self, ex, ms, obj, args, st):
        self.n += 1
        keys = {}
        for fn, mods in ms:
            for (root, path), sort in mods.items():
                if root == "this":
                    lv = obj
                else:
                    names = ["p:" + (p["n"] or "_") for p in fn["params"]]
                    if root not in names:
                        continue
                    lv = args[names.index(root)]
                if isinstance(lv, LV):
                    if lv.idxs:
                        raise Missing("call on an array element")
                    keys[(lv.root, tuple(lv.path) + tuple(path))] = sort
                elif root == "this":
                    continue  # object behind an opaque pointer: its own state is not visible here
        self.post(ex, st, keys, self.n, [fn for fn, _ in ms])
        fn = ms[0][0]
        rt = fn["types"][fn["ret"]]
        if rt.get("c") == "void":
            return VOID
        lv = LV(ex.newroot("ret:" + fn["q"].split("::")[-1]), (), (), noref(rt))
        ex.symname = dict(ex.symname)
        return lv
