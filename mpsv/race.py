"""Footprints of parallel loops: every access an arbitrary iteration makes to a shared location, with the condition under
which it happens.  Two different iterations must not touch the same location when one of them writes it."""
from . import terms as tm
from .exec import Exec, LV, Obl, Unsupported, noref, recname, strip_templates, VOID
from .terms import TRUE, FALSE, arg


class Access:
    __slots__ = ("mode", "root", "path", "nidx", "lock", "where")

    def __init__(self, mode, root, path, nidx, lock, where):
        self.mode, self.root, self.path, self.nidx, self.lock, self.where = mode, root, path, nidx, lock, where


class RaceExec(Exec):
    def __init__(self, prog, prover=None):
        super().__init__(prog, prover)
        self.region = None
        self.omp_hook = RaceExec.parallel
        self.found = []  # (where, accesses, iteration symbol, local names, path condition of the region)
        self.problems = []
        self.bits = set()
        self.lock = None
        for f in prog.functions.values():
            for k in f.get("overrides", []):
                b = prog.functions.get(k)
                q = strip_templates(b["q"]) if b else strip_templates(k.split("(")[0])
                self.virtual.setdefault(q, self.dispatch(k))

    def dispatch(self, key):
        def h(ex, e, obj, args, st):
            """any implementation in the sources, on an object of its own (shared by all iterations)"""
            fs = [g for g in ex.prog.overriders(key) if g.get("body") is not None]
            b = ex.prog.functions.get(key)
            if b is not None and b.get("body") is not None:
                fs.append(b)
            res = None
            base = st.copy()
            for n, g in enumerate(fs):
                c = tm.app(f"dynamic type is {g.get('cls')}", (), "B")
                S = base.copy().assume(c)
                v = ex.call_fn(g, LV("object:" + (g.get("cls") or "?"), (), (), {"c": "rec", "n": g.get("cls"), "repo": True}), args, S)
                res = (S, v) if res is None else ex.merge(res[0], S, res[1], v)
            if res is None:
                raise Unsupported("virtual call without an implementation")
            st.assign(res[0])
            return res[1]
        return h

    # ------------------------------------------------------------ accesses
    def log(self, mode, st, lv, rel):
        r = self.region
        if r is None or lv.root.startswith("#") or self.rootno(lv.root) > r["nroot"] or (lv.root, lv.path[:0]) in r["private"]:
            return
        if any(lv.root == pr and lv.path[:len(pp)] == pp for pr, pp in r["private"]):
            return
        full = tuple(lv.path) + tuple(rel)
        if "#has" in full:  # inserting into a map or set reorganises it: no other iteration may even look something up
            n = full.index("#has")
            k = sum(1 for p in full[:n] if p == "[]")
            self.obls.append(Obl("access", list(st.pc), tm.app("access", tuple(lv.idxs[:k]), "B"), r["where"],
                                 Access(mode, lv.root, full[:n] + ("#structure",), k, self.lock, self.stack[-1] if self.stack else "?")))
        self.obls.append(Obl("access", list(st.pc), tm.app("access", tuple(lv.idxs), "B"), r["where"],
                             Access(mode, lv.root, tuple(lv.path) + tuple(rel), len(lv.idxs), self.lock, self.stack[-1] if self.stack else "?")))

    def read_leaf(self, st, lv, rel, sort):
        if self.region is not None:
            self.log("r", st, lv, rel)
        return super().read_leaf(st, lv, rel, sort)

    def write_leaf(self, st, lv, rel, sort, val):
        if self.region is not None:
            self.log("w", st, lv, rel)
        return super().write_leaf(st, lv, rel, sort, val)

    def elem(self, st, cont, i, e=None, check=True, ty=None):
        lv = super().elem(st, cont, i, e, check, ty)
        t = noref(cont.ty)
        if recname(t) == "std::vector" and t["a"][0].get("c") == "bool":
            self.bits.add((lv.root, lv.path))
        return lv

    def declare(self, v, st, fr):
        if v.get("static"):
            t = fr.types[v["t"]]
            fr.env[v["id"]] = LV("static:" + v["n"], (), (), noref(t))
            return
        return super().declare(v, st, fr)

    # ------------------------------------------------------------ regions
    def parallel(self, s, st, fr):
        d = s["d"]
        body = s.get("body")
        if d in ("critical", "atomic"):
            old, self.lock = self.lock, d
            try:
                return self.ex(body, st, fr)
            finally:
                self.lock = old
        if self.region is not None:
            if d in ("simd", "ordered"):
                return self.ex(body, st, fr)
            raise Unsupported("nested parallel construct " + d)
        if not ("for" in d.split() or "simd" in d.split()) or body is None or body["k"] not in ("for", "rangefor"):
            raise Unsupported("parallel construct " + d)
        where = self.where(body)
        priv = set()
        for cl in s.get("clauses", []):
            for e in cl.get("vars", []):
                if cl["k"] in ("private", "firstprivate", "lastprivate", "linear"):
                    v = self.ev(e, st, fr)
                    if isinstance(v, LV):
                        priv.add((v.root, v.path))
                elif cl["k"] == "reduction":
                    v = self.ev(e, st, fr)
                    if isinstance(v, LV):
                        priv.add((v.root, v.path))
        if body["k"] == "for":
            i = (body.get("init") or {})
            if i.get("k") == "expr" and i["e"]["k"] == "asg":
                v = self.ev(i["e"]["a"], st, fr)
                priv.add((v.root, v.path))
        self.region = {"where": where, "nroot": self.nroot, "private": priv}
        self.norunroll = body
        self.on_summary = lambda sm: self.collect(sm, list(st.pc))
        n = len(self.found)
        try:
            r = self.ex(body, st, fr)
        finally:
            self.region, self.norunroll, self.on_summary = None, None, None
            self.obls[:] = [o for o in self.obls if o.kind != "access"]
        if len(self.found) == n:
            self.problems.append((where, "the loop is not summarised"))
        return r

    def collect(self, sm, pc):
        acc = [o for o in self.obls[sm.mark[0]:] if o.kind == "access"]
        self.obls[sm.mark[0]:] = [o for o in self.obls[sm.mark[0]:] if o.kind != "access"]
        ind = sm.induction_key()
        if ind is None:
            self.problems.append((self.region["where"], "no iteration variable"))
            self.found.append((self.region["where"], None, None, None, pc))
            return
        local = set(tm.made[sm.fmark:]) | {sm.msym(k, s).args[0] for k, s in sm.W.items()}
        self.found.append((self.region["where"], acc, sm.msym(ind, "I"), local, pc))


def prime(t, local, cache):
    def fn(x):
        if x.op == "app" and x.args[0] in local:
            return tm.app(x.args[0] + "'", x.args[1:], x.sort)
        return x
    return tm.map_term(t, fn, cache)


def overlap(a, b, ia, ib, bits):
    """condition for two accesses to touch the same memory location; None: never"""
    if a.root != b.root:
        return None
    n = min(len(a.path), len(b.path))
    if a.path[:n] != b.path[:n] or len(a.path) != len(b.path):
        return None
    cs = []
    q = 0
    for d, p in enumerate(a.path):
        if p != "[]":
            continue
        if q < a.nidx and q < b.nidx and (a.root, a.path[:d + 1]) not in bits:
            cs.append(tm.eq(ia[q], ib[q]))
        q += 1
    return tm.and_(*cs)
