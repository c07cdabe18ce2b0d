"""Loop rule.

A loop is handled by an inductive argument over an arbitrary iteration K: the body is executed once from a state in
which every location the loop modifies holds an unknown M (the frame is computed by a fixpoint, so everything else is
proved unchanged), and for each modified location a closed form CF(K) is read off the step N = body(M):

    CF(lo) = value before the loop            (base)
    CF(K+1) = N[M := CF(K)]                    (step; the shape of CF makes this an identity)

Shapes: affine, sum, last value, existential / universal flag, map (element K of an array written in iteration K),
accumulation at a fixed index, ordered append (streams), general fold.  What fits none of them becomes an unknown
function of K (named HAVOC.*), about which nothing is known; a proof that needs it does not go through.
"""
from . import terms as tm, smt
from .terms import T, TRUE, FALSE, ZERO, ONE, num, arg
from .exec import Unsupported, State, VOID, LV, Vec, SV, It, Ptr, solve_idx

_lid = [0]
MAXATT = 14


class LoopInfo:
    pass


def summarise(ex, st, cond, body, inc, node):
    if ex.loop_hook:
        r = ex.loop_hook(ex, st, cond, body, inc, node)
        if r is not None:
            return r
    return Summary(ex, st, cond, body, inc, node).run()


def conjuncts(c):
    return list(c.args) if c.op == "and" else ([] if c is TRUE else [c])


def map_val(v, f):
    if isinstance(v, T):
        return f(v)
    if isinstance(v, LV):
        return LV(v.root, v.path, [f(i) for i in v.idxs], v.ty)
    if isinstance(v, Vec):
        return Vec([f(x) for x in v.c])
    if isinstance(v, SV):
        return SV(v.ty, {k: f(x) for k, x in v.leaves.items()})
    if isinstance(v, It):
        return It(map_val(v.lv, f), f(v.i))
    if isinstance(v, Ptr):
        return Ptr(map_val(v.lv, f), f(v.nn))
    return v


class Summary:
    def __init__(self, ex, st, cond, body, inc, node):
        self.ex, self.st, self.cond, self.body, self.inc, self.node = ex, st, cond, body, inc, node
        _lid[0] += 1
        self.lid = _lid[0]
        self.active = []
        self.kterm = None

    # ------------------------------------------------------------ annotated invariants (inductive subset of the candidates)
    def invhyps(self, S):
        if not self.active or self.kterm is None:
            return []
        return [tm.le(self.lo0, self.kterm)] + [h for h in (self.inst(c, S, self.kterm) for c in self.active) if h is not None]

    def inst(self, cand, S, k):
        ex = self.ex
        ks = ex.loop_ks[: self.level] + [k]
        if any(x is None for x in ks):
            return None
        return cand.fn(lambda root, path, sort="R": ex.getcell(S, root, path, sort), ks)

    def annotate(self):
        """keep the candidates that hold initially and are preserved by an arbitrary iteration"""
        ex = self.ex
        self.wnames = {self.msym(k, s).args[0] for k, s in self.W.items()}
        ind = self.induction()
        if not ind or ind[1] != 1:
            return
        key = ind[0]
        self.lo0 = ex.getcell(self.st, key[0], key[1], "I")
        self.kterm = self.msym(key, "I")
        cands = [c for c in ex.invariants(ex, self) if any(self.touches(c, k) for k in self.W)]
        good = []
        for c in cands:
            b = self.inst(c, self.st, self.lo0)
            if b is not None and ex.prover.prove(b, self.st.pc).ok:
                good.append(c)
        self.active = good
        while self.active:
            del ex.obls[self.mark[0]:]
            del ex.exits[self.mark[1]:]
            self.fmark = len(tm.made)
            self.head, self.c, self.after, self.B, self.cont, self.brk, self.ret = self.iterate(self.W)
            keep = []
            for c in self.active:
                g = self.inst(c, self.cont, tm.add(self.kterm, ONE))
                if g is not None and ex.prover.prove(g, self.cont.pc).ok:
                    keep.append(c)
            if len(keep) == len(self.active):
                break
            self.active = keep
        else:
            self.kterm = None
            del ex.obls[self.mark[0]:]
            del ex.exits[self.mark[1]:]
            self.fmark = len(tm.made)
            self.head, self.c, self.after, self.B, self.cont, self.brk, self.ret = self.iterate(self.W)
        ex.invlog.append((ex.where(self.node), self.level, [c.name for c in self.active]))

    def touches(self, c, k):
        return any(k[0] == r and k[1] == p for r, p in c.keys)

    # ------------------------------------------------------------ one symbolic iteration
    def iterate(self, W):
        ex = self.ex
        S0 = self.st.copy()
        for k in W:
            S0.cells[k] = self.msym(k, W[k])
        for h in self.invhyps(S0):
            S0.assume(h)
        head = S0.copy()
        c = ex.simp(S0, ex.conv(self.cond(S0), "B"))
        after = S0.copy()
        B = S0.copy().assume(c)
        for k, v in list(S0.cells.items()):  # what the condition itself wrote, on either branch
            if v is not head.cells.get(k) and c is not TRUE and c is not FALSE:
                for x in conjuncts(c):
                    B.cells[k] = smt.assume(B.cells[k], x, True)
                after.cells[k] = smt.assume(v, c, False)
        ex.loop_ks.append(self.kterm)
        try:
            r = self.body(B) if c is not FALSE else {}
        finally:
            ex.loop_ks.pop()
        cont, brk, ret = None, None, None
        for k, (S, v) in r.items():
            if k in ("n", "c"):
                cont = S if cont is None else ex.merge(cont, S)[0]
            elif k == "b":
                brk = S
            elif k == "r":
                ret = (S, v)
        if cont is not None:
            self.inc(cont)
        return head, c, after, B, cont, brk, ret

    def msym(self, k, sort):
        ar = k[1].count("[]")
        return tm.app(f"M{self.lid}:{k[0]}" + "".join("." + p for p in k[1]), tuple(arg(i) for i in range(ar)), sort)

    def changed(self, head, S, W, out):
        ex = self.ex
        for k, v in S.cells.items():
            if k in W or k in out:
                continue
            if ex.rootno(k[0]) > self.nroot0:
                continue
            old = head.cells.get(k)
            if old is None:
                old = ex.init_cell(k[0], k[1], v.sort)
            if old is not v:
                out[k] = v.sort if old.sort == v.sort or old.sort not in ("I", "R") else "R"

    def run(self):
        ex = self.ex
        self.nroot0 = ex.nroot
        self.mark = (len(ex.obls), len(ex.exits))
        self.level = len(ex.loop_ks)
        W = {}
        for att in range(MAXATT):
            del ex.obls[self.mark[0]:]
            del ex.exits[self.mark[1]:]
            self.fmark = len(tm.made)
            head, c, after, B, cont, brk, ret = self.iterate(W)
            new = {}
            for S in (cont, brk, ret[0] if ret else None, after):
                if S is not None:
                    self.changed(head, S, W, new)
            if cont is None:
                # the body never reaches a second iteration
                if W:
                    W = {}
                    del ex.obls[self.mark[0]:]
                    del ex.exits[self.mark[1]:]
                    head, c, after, B, cont, brk, ret = self.iterate(W)
                return self.once(c, after, brk, ret)
            if not new:
                break
            W.update(new)
        else:
            raise Unsupported(f"loop at {ex.where(self.node)}: the set of modified locations does not stabilise")
        self.W, self.head, self.c, self.after, self.B, self.cont, self.brk, self.ret = W, head, c, after, B, cont, brk, ret
        for k, b in list(cont.binds.items()):
            o = self.st.binds.get(k)
            if o is not None and o is not b and ex.rootno(k[0]) <= self.nroot0:
                if not (o[0] == b[0] and hasattr(o[1], "root") and o[1].key() == b[1].key()):
                    raise Unsupported("a pointer is re-bound to another object in a loop")
        if ex.invariants and ex.prover:
            self.annotate()
        if ex.on_summary and self.node is ex.norunroll:
            ex.on_summary(self)
        return self.solve()

    def once(self, c, after, brk, ret):
        outs = {}
        ex = self.ex
        if c is not TRUE:
            ex.add_out(outs, "n", after.copy().assume(tm.not_(c)))
        if brk is not None:
            ex.add_out(outs, "n", brk)
        if ret is not None:
            ex.add_out(outs, "r", ret[0], ret[1])
        return outs

    # ------------------------------------------------------------ closed forms
    def wmention(self, t, names=None):
        names = self.wnames if names is None else names
        return any(x.op == "app" and x.args[0] in names for x in tm.subterms(t))

    def induction(self):
        """(key, step, lo, hi, K-expression, extra conjuncts)"""
        conj = conjuncts(self.c)
        best = None
        for key, sort in self.W.items():
            if sort != "I" or "[]" in key[1]:
                continue
            M = self.msym(key, sort)
            N = self.cont.cells.get(key)
            if N is None:
                continue
            d = tm.sub(N, M)
            if not tm.isnum(d) or d is ZERO:
                continue
            c = int(tm.cval(d))
            for q in conj:
                p = None
                kind = None
                if q.op == "lt0":
                    p, kind = q.args[0], "lt"
                elif q.op == "not" and q.args[0].op == "eq0":
                    p, kind = q.args[0].args[0], "ne"
                if p is None:
                    continue
                coef = None
                for m, k in tm._poly_items(p):
                    if m == ((M, 1),):
                        coef = k
                if coef is None or abs(coef) != 1:
                    continue
                H = tm.scale(tm.sub(p, tm.scale(M, coef)), -1 / coef)
                if self.wmention(H):
                    continue
                if kind == "lt" and not ((c > 0 and coef == 1) or (c < 0 and coef == -1)):
                    continue
                if kind == "ne" and abs(c) != 1:
                    continue
                rest = [x for x in conj if x is not q]
                best = (key, c, H, kind, rest, q)
                break
            if best:
                break
        return best

    def induction_key(self):
        self.wnames = {self.msym(k, s).args[0] for k, s in self.W.items()}
        ind = self.induction()
        return ind[0] if ind else None

    def chain(self):
        conj = conjuncts(self.c)
        for key, sort in self.W.items():
            if sort != "I" or "[]" in key[1]:
                continue
            M = self.msym(key, sort)
            N = self.cont.cells.get(key)
            if N is None or not tm.contains(N, lambda x: x is M):
                continue
            if self.wmention(N, self.wnames - {M.args[0]}):
                continue
            for q in conj:
                if q.op == "not" and q.args[0].op == "eq0":
                    p = q.args[0].args[0]
                elif q.op == "lt0":
                    p = q.args[0]
                else:
                    continue
                if tm.contains(p, lambda x: x is M) and not self.wmention(p, self.wnames - {M.args[0]}):
                    return key, M, N, q, [x for x in conj if x is not q]
        return None

    def solve(self):
        ex, st = self.ex, self.st
        self.wnames = {self.msym(k, s).args[0] for k, s in self.W.items()}
        self.bykey = {self.msym(k, s).args[0]: k for k, s in self.W.items()}
        self.newnames = set(tm.made[self.fmark:])
        self.K = K = tm.fresh(f"k{self.lid}", "I")
        self.CF = {}
        ind = self.induction()
        if ind:
            key, c, H, kind, rest, q = ind
            lo0 = ex.getcell(st, key[0], key[1], "I")
            if c == 1:
                self.lo, self.hi = lo0, H
                self.CF[key] = K
            else:
                self.lo = ZERO
                if c == -1:
                    self.hi = tm.sub(lo0, H)
                elif c > 0:
                    self.hi = tm.idiv(tm.add(H, tm.neg(lo0), num(c - 1)), num(c))
                else:
                    self.hi = tm.idiv(tm.add(lo0, tm.neg(H), num(-c - 1)), num(-c))
                self.CF[key] = tm.add(lo0, tm.scale(K, c))
            self.ikey = key
            if kind == "ne":
                ex.oblige("termination", st, tm.le(self.lo, self.hi), ex.where(self.node), "loop runs up to its bound")
            self.extra = tm.and_(*rest)
        else:
            ch = self.chain()
            if ch:
                key, M, N, q, rest = ch
                start = ex.getcell(st, key[0], key[1], "I")
                v = tm.bv("@j")
                nx = tm.lam([v], tm.subst(N, {M: v}))
                stop = tm.lam([v], tm.subst(tm.not_(q), {M: v}))
                self.lo, self.hi = ZERO, tm.app("chlen", (start, nx, stop), "I")
                self.CF[key] = tm.app("chat", (start, nx, stop, K), "I")
                self.ikey = key
                self.extra = tm.and_(*rest)
            else:
                # unknown number of iterations
                self.lo, self.hi = ZERO, tm.fresh(f"HAVOC.count{self.lid}", "I")
                self.ikey = None
                self.extra = self.c
                self.unbounded = True
        self.cache = {}
        self.resolve()
        return self.finish()

    def sub(self, t, extra=None):
        """replace the unknowns that are solved by their closed forms at K, and make iteration-local symbols depend on K"""
        cf = self.CF
        K = self.K
        newn = self.newnames

        def fn(x):
            if x.op == "app":
                n = x.args[0]
                if n in self.bykey:
                    k = self.bykey[n]
                    if k in cf:
                        return tm.subst(cf[k], {arg(i): a for i, a in enumerate(x.args[1:])})
                elif n in newn and x.sort != "X" and (len(x.args) < 2 or x.args[-1] is not K):
                    return tm.app(n, x.args[1:] + (K,), x.sort)
            return x

        return tm.map_term(t, fn, self.cache)

    def shape(self, key, N):
        """write index of an array cell, or None"""
        sort = self.W[key]
        M = self.msym(key, sort)
        h = arg(0)
        atoms = [x for x in self.top_atoms(N) if x.op == "eq0" and h in x.fv]
        es = []
        for a in atoms:
            s = solve_h(a, h)
            if s is None:
                return None
            if s not in es:
                es.append(s)
        if len(es) != 1:
            return None
        els = tm.subst(N, {a: FALSE for a in atoms})
        if els is not M:
            return None
        return es[0], tm.subst(N, {h: es[0]})

    def top_atoms(self, N):
        """condition atoms of N outside binders"""
        out = set()
        stack = [N]
        seen = set()
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("eq0",):
                out.add(x)
                continue
            if x.op in tm.BINDERS:
                continue
            stack.extend(tm._kids(x))
        return sorted(out, key=lambda t: t.id)

    def resolve(self):
        ex = self.ex
        K = self.K
        pend = [k for k in self.W if k not in self.CF]
        inits = {k: ex.getcell(self.st, k[0], k[1], self.W[k]) for k in self.W}
        self.inits = inits
        while True:
            progress = False
            Ns = {}
            for k in pend:
                n = self.cont.cells.get(k)
                Ns[k] = self.sub(n) if n is not None else self.msym(k, self.W[k])
            # elements written in iteration K still hold their initial value at its start
            mapped = {}
            for k in pend:
                if "[]" in k[1]:
                    sh = self.shape(k, Ns[k])
                    if sh and self.kaffine(sh[0]) is not None:
                        mapped[self.msym(k, self.W[k]).args[0]] = (k, sh[0])

            def fresh_elem(x):
                if x.op == "app" and x.args[0] in mapped and len(x.args) > 1:
                    k, e = mapped[x.args[0]]
                    if x.args[1] is e:
                        return tm.subst(inits[k], {arg(i): a for i, a in enumerate(x.args[1:])})
                return x

            for k in list(pend):
                N = Ns[k]
                if "[]" in k[1]:
                    sh = self.shape(k, N)
                    if sh and self.kaffine(sh[0]) is not None:
                        e, val = sh
                        val = tm.map_term(val, fresh_elem)
                        if not self.wmention(val):
                            co, off = self.kaffine(e)
                            h = arg(0)
                            kk = tm.sub(h, off) if co == 1 else tm.sub(off, h)
                            val = tm.subst(val, {K: kk})
                            self.CF[k] = tm.ite(tm.and_(tm.le(self.lo, kk), tm.lt(kk, K)), val, inits[k])
                            pend.remove(k)
                            progress = True
                        continue
                M = self.msym(k, self.W[k])
                r = self.solve_cell(M.args[0], self.W[k], k[1].count("[]"), tm.map_term(N, fresh_elem), inits[k])
                if r is not None:
                    self.CF[k] = r
                    pend.remove(k)
                    progress = True
            if not pend:
                break
            if not progress:
                for k in pend:
                    ar = k[1].count("[]")
                    nm = "HAVOC." + self.msym(k, self.W[k]).args[0]
                    tm.made.append(nm)
                    self.CF[k] = tm.app(nm, tuple(arg(i) for i in range(ar)) + (K,), self.W[k])
                ex.havocs = getattr(ex, "havocs", []) + [(ex.where(self.node), k) for k in pend]
                break
            self.cache = {}
        self.cache = {}

    def kaffine(self, e):
        """e == co*K + off"""
        K = self.K
        co = None
        for m, c in tm._poly_items(e):
            if m == ((K, 1),):
                co = c
        if co is None or abs(co) != 1:
            return None
        off = tm.sub(e, tm.scale(K, co))
        if tm.contains(off, lambda x: x is K) or self.wmention(off) or any(v.args[0].startswith("#") for v in off.fv):
            return None
        return int(co), off

    def solve_cell(self, mname, sort, ar, N, init):
        """closed form (over #0..#ar-1, at K) of the recursion M' = N; None when N still depends on unsolved cells"""
        K, lo = self.K, self.lo
        M = tm.app(mname, tuple(arg(i) for i in range(ar)), sort)
        if N is M:
            return init
        others = self.wnames - {mname}
        if self.wmention(N, others):
            return None
        own = self.wmention(N, {mname})
        if not own:
            return tm.ite(tm.lt(lo, K), tm.subst(N, {K: tm.sub(K, ONE)}), init)
        if ar:
            h = arg(0)
            atoms = [x for x in self.top_atoms(N) if h in x.fv]
            es = []
            for a in atoms:
                s = solve_h(a, h)
                if s is None:
                    return None
                if s not in es:
                    es.append(s)
            if len(es) == 1:
                e = es[0]
                els = tm.subst(N, {a: FALSE for a in atoms})
                if els is M and not tm.contains(e, lambda x: x is K) and not any(v.args[0].startswith("#") for v in e.fv):
                    val = tm.subst(N, {h: e})
                    nn = mname + "|"
                    bad = []

                    def low(x):
                        if x.op == "app" and x.args[0] == mname:
                            if x.args[1] is not e:
                                bad.append(x)
                                return x
                            return tm.app(nn, x.args[2:], x.sort)
                        return x

                    val = tm.map_term(val, low)
                    if bad:
                        return None
                    dn = {arg(i): arg(i - 1) for i in range(1, ar)}
                    up = {arg(i - 1): arg(i) for i in range(1, ar)}
                    self.wnames.add(nn)
                    try:
                        r = self.solve_cell(nn, sort, ar - 1, tm.subst(val, dn), tm.subst(tm.subst(init, {h: e}), dn))
                    finally:
                        self.wnames.discard(nn)
                    if r is None:
                        return None
                    return tm.ite(tm.eq(h, e), tm.subst(r, up), init)
            return None
        v = tm.bv("@i")
        gen = lambda t: tm.subst(t, {K: v})
        if sort == "X":
            items = tm.cat_items(N)
            if items and items[0] is M and not any(tm.contains(x, lambda y: y is M) for x in items[1:]):
                return tm.cat(init, tm.sfor(v, lo, K, gen(tm.cat(*items[1:]))))
            return None
        if sort == "B":
            if N.op == "or" and M in N.args:
                rest = tm.or_(*[x for x in N.args if x is not M])
                if not tm.contains(rest, lambda y: y is M):
                    return tm.or_(init, tm.ex_(v, lo, K, gen(rest)))
            if N.op == "and" and M in N.args:
                rest = tm.and_(*[x for x in N.args if x is not M])
                if not tm.contains(rest, lambda y: y is M):
                    return tm.and_(init, tm.all_(v, lo, K, gen(rest)))
        if sort in ("I", "R"):
            d = delta(N, M)
            if d is not None:
                if not tm.contains(d, lambda y: y is K):
                    return tm.add(init, tm.mul(tm.sub(K, lo), d))
                return tm.add(init, tm.sum_(v, lo, K, gen(d)))
        if sort in ("I", "R", "B"):
            acc = tm.bv("@acc", sort if sort == "B" else ("R" if N.sort == "R" or init.sort == "R" else "I"))
            return tm.fold_(acc, v, lo, K, init, tm.subst(gen(N), {M: acc}))
        if sort == "S":
            from .exec import str_parts
            ps = str_parts(N)
        acc = tm.bv("@acc", sort)
        return tm.fold_(acc, v, lo, K, init, tm.subst(gen(N), {M: acc}))

    # ------------------------------------------------------------ state after the loop
    def finish(self):
        ex, st = self.ex, self.st
        K, lo, hi = self.K, self.lo, self.hi
        sub = self.sub
        rng = [tm.le(lo, K), tm.lt(K, hi)]
        # obligations and exits raised inside the body
        npc = len(st.pc)
        extra_pc = lambda S: tm.and_(*[sub(x) for x in S.pc[npc:] if not (x in conj0)])
        conj0 = set(conjuncts(self.c)) - set(conjuncts(self.extra))
        stops = []
        if self.extra is not TRUE:
            stops.append(("n", sub(tm.not_(self.extra)), self.after, VOID))
        if self.brk is not None:
            stops.append(("n", extra_pc(self.brk), self.brk, VOID))
        if self.ret is not None:
            stops.append(("r", extra_pc(self.ret[0]), self.ret[0], self.ret[1]))
        stop = tm.or_(*[s[1] for s in stops]) if stops else FALSE
        v = tm.bv("@s")
        gen = lambda t: tm.subst(t, {K: v})
        nostop = []
        if stop is not FALSE:
            nostop = [tm.all_(v, lo, K, gen(tm.not_(stop)))]
        new = ex.obls[self.mark[0]:]
        for o in new:
            if any(h in conj0 for h in o.hyps) or o.hyps[:npc] == st.pc:
                o.hyps = [sub(h) for h in o.hyps] + rng + nostop
                o.goal = sub(o.goal)
        nex = []
        left = []  # where an iteration ends the program; a state after the loop has seen none of these
        for kind, pc, S, wh in ex.exits[self.mark[1]:]:
            if pc[:npc] == st.pc:
                t = tm.and_(*[sub(x) for x in pc[npc:] if x not in conj0])
                if not tm.contains(t, lambda x: x is not K and x.op == "app" and isinstance(x.args[0], str) and ("~" in x.args[0] or "HAVOC" in x.args[0])):
                    left.append(t)
            S2 = S.copy() if S is not None else None
            if S2 is not None:
                for k in S2.cells:
                    S2.cells[k] = sub(S2.cells[k])
                S2.pc = [sub(x) for x in S2.pc] + rng
            nex.append((kind, [sub(x) for x in pc] + rng + nostop, S2, wh))
        ex.exits[self.mark[1]:] = nex
        outs = {}
        ctl = getattr(self, "unbounded", False)

        invs = [sub(h) for h in self.invhyps(self.head)]
        went_on = lambda hi_: [tm.all_(v, lo, hi_, gen(tm.not_(t))) for t in left]

        def mkstate(src, kval, pcs):
            S = State()
            S.pc = list(st.pc)
            for h in invs:
                S.assume(tm.subst(h, {K: kval}) if kval is not None else h)
            for p in pcs:
                S.assume(p)
            for k, t in src.cells.items():
                if ex.rootno(k[0]) > self.nroot0:
                    continue
                t = sub(t)
                S.cells[k] = tm.subst(t, {K: kval}) if kval is not None else t
            S.binds = {k: b for k, b in src.binds.items() if ex.rootno(k[0]) <= self.nroot0}
            return S

        if not ctl:
            hv = hi
            if tm.isnum(lo) and tm.isnum(hi):
                hv = hi if tm.cval(lo) <= tm.cval(hi) else lo
            elif not (tm.isnum(lo) and tm.cval(lo) == 0 and nonneg(hi)):
                if not (ex.prover and ex.prover.prove(tm.le(lo, hi), st.pc).ok):
                    hv = tm.max_(lo, hi)
            pcs = [tm.not_(tm.ex_(v, lo, hi, gen(stop)))] if stop is not FALSE else []
            ex.add_out(outs, "n", mkstate(self.after, hv, pcs + went_on(hi)))
        if stops:
            if ctl:
                kst = tm.fresh(f"HAVOC.last{self.lid}", "I")
                pe = [tm.le(ZERO, kst)]
            else:
                kst = tm.first_(v, lo, hi, gen(stop))
                pe = [tm.ex_(v, lo, hi, gen(stop))]
            for kind, c, src, val in stops:
                pcs = list(pe)
                if len(stops) > 1 or ctl:
                    pcs.append(tm.subst(c, {K: kst}))
                S = mkstate(src, kst, pcs + went_on(kst))
                if not any(tm.contains(t, lambda x: x is kst) for t in S.cells.values()) and val is VOID:
                    pass
                val2 = map_val(val, lambda t: tm.subst(sub(t), {K: kst}))
                ex.add_out(outs, kind, S, val2)
        if getattr(ex, "loop_log", None) is not None:
            ex.loop_log.append(self)
        return outs


def nonneg(t):
    return t.op == "app" and isinstance(t.args[0], str) and (t.args[0].endswith("#size") or t.args[0] in ("chlen",))


def solve_h(a, h):
    """eq0 atom a solved for the hole h -> term or None"""
    p = a.args[0]
    for m, k in tm._poly_items(p):
        if m == ((h, 1),) and abs(k) == 1:
            rest = tm.sub(p, tm.scale(h, k))
            if h in rest.fv:
                return None
            return tm.scale(rest, -1 / k)
    return None


def delta(N, M):
    """N - M pushed through ites; None when the difference still mentions M"""
    if N.op == "ite" and not tm.contains(N.args[0], lambda y: y is M):
        a, b = delta(N.args[1], M), delta(N.args[2], M)
        if a is None or b is None:
            return None
        return tm.ite(N.args[0], a, b)
    d = tm.sub(N, M)
    if tm.contains(d, lambda y: y is M):
        return None
    return d
