"""Differential self-test of the extractor, the symbolic executor and the loop rule: random C++ member functions are compiled
and run, and also executed symbolically; on concrete initial states the final state computed by the formulas has to be the
one the compiled code produced, and every path condition has to hold.
usage: python3-vt tools/selftest_exec.py [functions] [seed]"""
import os
import random
import signal
import subprocess
import sys
import tempfile
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.dirname(HERE), HERE]
sys.setrecursionlimit(20000)
NF = int(sys.argv[1]) if len(sys.argv) > 1 else 40
SEED = int(sys.argv[2]) if len(sys.argv) > 2 else 1
STATES = 25


class G:
    def __init__(self, r):
        self.r = r
        self.n = 0

    def name(self, p):
        self.n += 1
        return f"{p}{self.n}"

    # scope: lists of (expression text) by kind
    def d(self, sc, n=2):
        r = self.r
        if n <= 0 or r.random() < 0.35:
            return r.choice(sc["d"] * 3 + ["0.0", "1.0", "-2.0", "0.5", "3.0"])
        k = r.randrange(9)
        x, y = self.d(sc, n - 1), self.d(sc, n - 1)
        if k in (0, 1):
            return f"({x} + {y})"
        if k == 2:
            return f"({x} - {y})"
        if k == 3:
            return f"2.0 * {x}"
        if k == 4:
            return f"std::max({x}, {y})"
        if k == 5:
            return f"std::min({x}, {y})"
        if k == 6:
            return f"({self.b(sc, 1)} ? {x} : {y})"
        if k == 7:
            return f"std::abs({x})"
        return f"(double){self.i(sc, 1)}"

    def i(self, sc, n=2):
        r = self.r
        if n <= 0 or r.random() < 0.4:
            return r.choice(sc["i"] * 3 + ["0", "1", "2", "-1"])
        x, y = self.i(sc, n - 1), self.i(sc, n - 1)
        return r.choice([f"({x} + {y})", f"({x} - {y})", f"std::max({x}, {y})", f"({x} / 2)", f"({x} % 3)", f"({self.b(sc, 1)} ? {x} : {y})", f"(int){r.choice(['a', 'b', 'c', 'q'])}.size()"])

    def b(self, sc, n=2):
        r = self.r
        k = r.randrange(8)
        if n <= 0 or k == 0:
            return r.choice(sc["b"] + [f"{self.i(sc, 0)} < {self.i(sc, 0)}"])
        if k in (1, 2):
            return f"({self.i(sc, 1)} {r.choice(['<', '<=', '==', '!=', '>'])} {self.i(sc, 1)})"
        if k in (3, 4):
            return f"({self.d(sc, 1)} {r.choice(['<', '<=', '>', '>='])} {self.d(sc, 1)})"
        if k == 5:
            return f"({self.b(sc, n - 1)} && {self.b(sc, n - 1)})"
        if k == 6:
            return f"({self.b(sc, n - 1)} || {self.b(sc, n - 1)})"
        return f"!({self.b(sc, n - 1)})"

    def block(self, sc, depth, loop, k=None):
        sc = {x: list(v) for x, v in sc.items()}
        out = []
        for _ in range(k or self.r.choice((1, 2, 2, 3))):
            s = self.stmt(sc, depth, loop)
            out.append(s)
        return "{ " + " ".join(out) + " }"

    def with_(self, sc, **kw):
        s = {x: list(v) for x, v in sc.items()}
        for x, v in kw.items():
            s[x] += v
        return s

    def stmt(self, sc, depth, loop):
        r = self.r
        k = r.random()
        if k < 0.24:
            t = r.choice(sc["dw"])
            return f"{t} {r.choice(['=', '+=', '-=', '+='])} {self.d(sc)};"
        if k < 0.30:
            t = r.choice(sc["iw"])
            return f"{t} {r.choice(['=', '+=', '-='])} {self.i(sc, 1)};"
        if k < 0.34:
            t = r.choice(sc["dw"])
            return f"{t} = std::{r.choice(['max', 'min'])}({t}, {self.d(sc)});"
        if k < 0.37:
            return f"f = {self.b(sc)};"
        if k < 0.42:
            v = self.name("x")
            x = f"double {v} = {self.d(sc)};"
            sc["d"].append(v)
            sc["dw"].append(v)
            return x
        if k < 0.45:
            v = self.name("m")
            x = f"const int {v} = {self.i(sc)};"
            sc["i"].append(v)
            return x
        if k < 0.49:
            a = r.choice("ab")
            e = self.i(sc, 1)
            return f"if (0 <= {e} && {e} < (int){a}.size()) {a}[{e}] = {self.d(sc)};"
        if k < 0.52 and loop:
            return f"if ({self.b(sc)}) {r.choice(['continue', 'continue', 'break'])};"
        if k < 0.54:
            return f"if ({self.b(sc)}) return;"
        if k < 0.57:
            return r.choice([f"h0({r.choice(sc['dw'])}, {self.i(sc, 1)});", f"{r.choice(sc['dw'])} = h1({self.d(sc, 1)}, {self.i(sc, 1)});", f"h2({self.i(sc, 1)});"])
        if k < 0.60 and not loop:
            return r.choice([f"std::fill(a.begin(), a.end(), {self.d(sc, 1)});", f"w.push_back({self.d(sc, 1)});", "w.clear();", f"std::swap({r.choice(['s, t', 'n, k'])});",
                             f"b.assign(b.size(), {self.d(sc, 1)});"])
        if depth <= 0:
            return f"{r.choice(sc['dw'])} += {self.d(sc)};"
        if k < 0.74:
            s = f"if ({self.b(sc)}) {self.block(sc, depth - 1, loop)}"
            return s + (f" else {self.block(sc, depth - 1, loop)}" if r.random() < 0.5 else "")
        if k < 0.77:
            v = self.i(sc, 1)
            cs = " ".join(f"case {c}: {self.block(sc, depth - 1, False, 1)} {'break;' if r.random() < 0.8 else ''}" for c in r.sample([0, 1, 2, 3], 2))
            return f"switch ({v}) {{ {cs} default: {self.block(sc, depth - 1, False, 1)} }}"
        # loops
        k = r.randrange(11)
        if k == 0:
            a = r.choice("ab")
            i = self.name("i")
            return f"for (int {i} = 0; {i} < (int){a}.size(); {i}++) " + self.block(self.with_(sc, i=[i], d=[f"{a}[{i}]"] * 2, dw=[f"{a}[{i}]"] * 3), depth - 1, True)
        if k == 1:
            i = self.name("i")
            return f"for (size_t {i} = 0; {i} < q.size(); {i}++) " + self.block(self.with_(sc, i=[f"q[{i}].id", f"q[{i}].type"], d=[f"q[{i}].x", f"q[{i}].y"], dw=[f"q[{i}].x", f"q[{i}].y"], iw=[f"q[{i}].type"], nb=[f"q[{i}].nb"]), depth - 1, True)
        if k in (2, 3, 4):
            p = self.name("p")
            return f"for (auto& {p} : q) " + self.block(self.with_(sc, i=[f"{p}.id", f"{p}.type"], d=[f"{p}.x", f"{p}.y"] * 2, dw=[f"{p}.x", f"{p}.y"] * 2, iw=[f"{p}.type"], nb=[f"{p}.nb"]), depth - 1, True)
        if k == 5:
            x = self.name("v")
            a = r.choice("abw")
            return f"for (const double {x} : {a}) " + self.block(self.with_(sc, d=[x] * 3), depth - 1, True)
        if k == 6:
            x = self.name("v")
            return f"for (auto& {x} : {r.choice('ab')}) " + self.block(self.with_(sc, d=[x] * 2, dw=[x] * 3), depth - 1, True)
        if k in (7, 8) and sc["nb"]:
            j, p = self.name("j"), self.name("p")
            body = self.block(self.with_(sc, i=[j, f"{p}.type"], d=[f"{p}.x", f"{p}.y"] * 2, dw=[f"{p}.x", f"{p}.y"]), depth - 1, True)
            return f"for (const int {j} : {r.choice(sc['nb'])}) {{ Q& {p} = q[{j}]; {body} }}"
        if k == 9:
            i = self.name("i")
            return f"for (int {i} = {r.choice(['n', '3', '(int)a.size() - 1'])}; {i} >= 0; {i}--) " + self.block(self.with_(sc, i=[i]), depth - 1, True)
        i = self.name("i")
        return f"for (int {i} = {r.choice(['0', '1', 'k'])}; {i} < {r.choice(['n', '(int)c.size()', '4'])}; {i} += {r.choice(['1', '1', '2'])}) " + self.block(self.with_(sc, i=[i]), depth - 1, True)


def program(seed):
    r = random.Random(seed)
    g = G(r)
    base = {"d": ["s", "t"], "dw": ["s", "t"], "i": ["n", "k"], "iw": ["n", "k"], "b": ["f"], "nb": []}
    fs = []
    for x in range(NF):
        sc = {k: list(v) for k, v in base.items()}
        body = "\n    ".join(g.stmt(sc, 3, False) for _ in range(r.choice((1, 2, 3, 4))))
        fs.append(f"void S::g{x}() {{\n    {body}\n}}\n")
    src = """#include <algorithm>
#include <cmath>
#include <vector>
struct Q { int id; int type; double x; double y; std::vector<int> nb; };
struct S {
    int n, k; bool f; double s, t; std::vector<double> a, b, w; std::vector<int> c; std::vector<Q> q;
    void h0(double& r, int v); double h1(double z, int v) const; void h2(int v);
""" + "\n".join(f"    void g{x}();" for x in range(NF)) + """
};
void S::h0(double& r, int v) { if (v < 0) return; r += v; if (f) r = s; }
double S::h1(double z, int v) const { if (v < n) return z + t; for (double x : a) { if (x > z) return x; } return z; }
void S::h2(int v) { for (auto& p : q) { if (p.type == v) continue; p.y += p.x; k = p.id; } }
""" + "\n".join(fs)
    return src, fs


MAIN = """
#include <cstdio>
#include <string>
static void rd(S& o) {
    int m; std::scanf("%d %d %d %lf %lf", &o.n, &o.k, &m, &o.s, &o.t); o.f = m;
    for (auto* v : {&o.a, &o.b, &o.w}) { std::scanf("%d", &m); v->resize(m); for (auto& x : *v) std::scanf("%lf", &x); }
    std::scanf("%d", &m); o.c.resize(m); for (auto& x : o.c) std::scanf("%d", &x);
    std::scanf("%d", &m); o.q.resize(m);
    for (auto& p : o.q) { std::scanf("%d %d %lf %lf %d", &p.id, &p.type, &p.x, &p.y, &m); p.nb.resize(m); for (auto& x : p.nb) std::scanf("%d", &x); }
}
static void pr(const S& o) {
    std::printf("%d %d %d %.17g %.17g", o.n, o.k, (int)o.f, o.s, o.t);
    for (auto* v : {&o.a, &o.b, &o.w}) { std::printf(" | %zu", v->size()); for (auto& x : *v) std::printf(" %.17g", x); }
    std::printf(" | %zu", o.c.size()); for (auto& x : o.c) std::printf(" %d", x);
    std::printf(" | %zu", o.q.size()); for (auto& p : o.q) std::printf(" %d %d %.17g %.17g", p.id, p.type, p.x, p.y);
    std::printf("\\n");
}
int main(int, char** v) { int f = std::stoi(v[1]), m; std::scanf("%d", &m);
    while (m--) { S o; rd(o); switch (f) { CASES } pr(o); } }
"""


def states(r):
    out = []
    for _ in range(STATES):
        d = lambda: Fraction(r.randint(-6, 8), r.choice((1, 1, 2)))
        nq = r.choice((0, 1, 2, 3, 4))
        out.append({
            "n": r.randint(-1, 4), "k": r.randint(-2, 4), "f": r.random() < 0.5, "s": d(), "t": d(),
            "a": [d() for _ in range(r.choice((0, 1, 2, 3, 4)))], "b": [d() for _ in range(r.choice((0, 1, 3)))], "w": [d() for _ in range(r.choice((0, 0, 2)))],
            "c": [r.randint(-3, 4) for _ in range(r.choice((0, 2, 4)))],
            "q": [{"id": i, "type": r.randint(0, 3), "x": d(), "y": d(), "nb": [r.randrange(nq) for _ in range(r.choice((0, 1, 2, 3)))]} for i in range(nq)],
        })
    return out


def text(s):
    o = [s["n"], s["k"], int(s["f"]), float(s["s"]), float(s["t"])]
    for v in "abw":
        o += [len(s[v])] + [float(x) for x in s[v]]
    o += [len(s["c"])] + s["c"] + [len(s["q"])]
    for p in s["q"]:
        o += [p["id"], p["type"], float(p["x"]), float(p["y"]), len(p["nb"])] + p["nb"]
    return " ".join(str(x) for x in o)


class Skip(Exception):
    pass


def main():
    work = tempfile.mkdtemp(prefix="selftest.")
    os.makedirs(work + "/src")
    os.makedirs(work + "/generator")
    src, fs = program(SEED)
    open(work + "/src/t.cpp", "w").write(src)
    open(work + "/main.cpp", "w").write('#include "src/t.cpp"\n' + MAIN.replace("CASES", " ".join(f"case {x}: o.g{x}(); break;" for x in range(NF))))
    subprocess.run(["g++", "-std=c++17", "-O1", "-w", "-fwrapv", "-D_GLIBCXX_ASSERTIONS", work + "/main.cpp", "-o", work + "/a.out"], check=True)
    os.environ["MPSV_REPO"] = work
    from mpsv import check, ir, terms as tm
    from mpsv.exec import State
    from mpsv.terms import arg, num
    import selftest_terms as st

    class Env:
        def __init__(self, s):
            self.s = s

        def app(self, name, args, sort):
            if not name.startswith("this."):
                raise Skip(name)
            o = self.s
            args = list(args)
            ks = name.split(".")[1:]
            for q, k in enumerate(ks):
                if k == "#size":
                    return Fraction(len(o))
                if isinstance(o, list):
                    i = int(args.pop(0))
                    if not 0 <= i < len(o):
                        return None  # any value: outside the container
                    o = o[i]
                o = o[k]
            if isinstance(o, list):
                i = int(args.pop(0))
                if not 0 <= i < len(o):
                    return None
                o = o[i]
            return o if isinstance(o, bool) else Fraction(o)

    def ev(t, env, b):
        if t.op == "app" and t.args[0] in ("chlen", "chat"):
            cur = ev(t.args[1], env, b)
            nx, stop = t.args[2], t.args[3]
            lim = int(ev(t.args[4], env, b)) if t.args[0] == "chat" else 200
            n = 0
            while n < lim:
                if t.args[0] == "chlen" and ev(stop.args[1], env, {**b, stop.args[0][0]: cur}):
                    return Fraction(n)
                cur = ev(nx.args[1], env, {**b, nx.args[0][0]: cur})
                n += 1
            if t.args[0] == "chlen":
                raise Skip("chain")
            return cur
        if t.op == "ite":
            return ev(t.args[1] if ev(t.args[0], env, b) else t.args[2], env, b)
        if t.op == "and":  # a conjunct about an element outside its container does not matter once another one is false
            bad = None
            for x in t.args:
                try:
                    if not ev(x, env, b):
                        return False
                except TypeError as e:
                    bad = e
            if bad:
                raise bad
            return True
        if t.op == "or":
            bad = None
            for x in t.args:
                try:
                    if ev(x, env, b):
                        return True
                except TypeError as e:
                    bad = e
            if bad:
                raise bad
            return False
        return base(t, env, b)

    base = st.ev
    st.ev = ev
    c = check.Check("SELF", "quick", 1)
    c.prog = ir.program()
    r = random.Random(SEED + 1)
    tot = {"equal": 0, "different": 0, "skipped": 0, "unsupported": 0, "functions": 0}
    why = {}

    def alarm(*a):
        raise TimeoutError

    signal.signal(signal.SIGALRM, alarm)
    for x in range(NF):
        ss = states(r)
        inp = f"{len(ss)}\n" + "\n".join(text(s) for s in ss)
        out = subprocess.run([work + "/a.out", str(x)], input=inp, capture_output=True, text=True, timeout=60)
        if out.returncode != 0:
            tot["unsupported"] += 1
            continue
        signal.alarm(40)
        try:
            ex, S, _ = c.run(f"S::g{x}", "S")
        except Exception as e:
            tot["unsupported"] += 1
            w = f"{type(e).__name__}: {str(e)[:90]}"
            why[w] = why.get(w, 0) + 1
            continue
        finally:
            signal.alarm(0)
        tot["functions"] += 1
        cell = lambda p, s: ex.getcell(S, "this", p, s)
        bad = False
        for s, line in zip(ss, out.stdout.strip().split("\n")):
            parts = [p.split() for p in line.split("|")]
            want = {("n",): Fraction(parts[0][0]), ("k",): Fraction(parts[0][1]), ("f",): parts[0][2] == "1", ("s",): Fraction(float(parts[0][3])), ("t",): Fraction(float(parts[0][4]))}
            if any(abs(float(y)) > 1e12 for p in parts for y in p):
                tot["skipped"] += 1
                continue
            for v, p in zip("abw", parts[1:4]):
                want[(v, "#size")] = Fraction(p[0])
                for i, y in enumerate(p[1:]):
                    want[(v, "[]", i)] = Fraction(float(y))
            q = parts[5][1:]
            for i in range(len(q) // 4):
                for k, fld in enumerate(("id", "type", "x", "y")):
                    want[("q", "[]", i, fld)] = Fraction(float(q[4 * i + k]))
            env = Env(s)
            for key, val in want.items():
                path = tuple(y for y in key if not isinstance(y, int))
                idx = [y for y in key if isinstance(y, int)]
                sort = "B" if key == ("f",) else "I" if key in (("n",), ("k",)) or key[-1] in ("#size", "id", "type") else "R"
                t = cell(path, sort)
                if idx:
                    t = tm.subst(t, {arg(0): num(idx[0])})
                try:
                    signal.alarm(20)
                    got = ev(t, env, {})
                    pc = [h for h in S.pc if ev(h, env, {}) is not True]
                except (Skip, st.Undef, TimeoutError, TypeError, RecursionError) as e:
                    tot["skipped"] += 1
                    w = f"{type(e).__name__}: {str(e)[:60]}"
                    why[w] = why.get(w, 0) + 1
                    continue
                finally:
                    signal.alarm(0)
                if got != val or pc:
                    tot["different"] += 1
                    if not bad:
                        bad = True
                        print("DIFFERENT", f"g{x}", key, "formula", got, "compiled", val, "path conditions violated:", [tm.show(h)[:300] for h in pc[:2]])
                        print(fs[x])
                        print("  state", {k: str(v) if not isinstance(v, list) else [str(y) for y in v] for k, v in s.items()})
                        print("  term ", tm.show(t)[:800])
                else:
                    tot["equal"] += 1
    subprocess.run(["rm", "-rf", work])
    print(tot)
    for w, n in sorted(why.items(), key=lambda z: -z[1])[:12]:
        print("  ", n, w)
    return 1 if tot["different"] else 0


if __name__ == "__main__":
    sys.exit(main())
