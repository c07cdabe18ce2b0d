"""Replay of the contracts on the compiled real code (bounded: random cases from a seed).  Used to turn a failed
obligation into a concrete failing input, and as a bounded stand-in where an obligation is undecided."""
import hashlib
import os
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

from . import ir

CXX = "/usr/bin/g++"
BASE = ["-O1", "-g1", "-DNDEBUG", "-std=gnu++17", "-w", "-I/usr/include/eigen3", "-I/usr/include/libfccp", "-D_GLIBCXX_ASSERTIONS"]
SAN = ["-fsanitize=undefined,float-cast-overflow", "-fno-sanitize=vptr,null,alignment,object-size", "-fno-sanitize-recover=all"]
OBJ = os.path.join(ir.CACHE, "obj")
SCRATCH = os.environ.get("MPSV_SCRATCH", "/tmp/mpsv-scratch")


def incs():
    out = [f"-I{ir.ROOT}/src", f"-I{ir.ROOT}/generator", f"-I{ir.VERIF}/harness"]
    if os.path.isdir("/opt/vp/deps/argparse/include"):
        out.append("-I/opt/vp/deps/argparse/include")
    return out


def tree_digest():
    h = hashlib.sha256()
    for d in ("src", "generator"):
        for p, _, fs in sorted(os.walk(os.path.join(ir.ROOT, d))):
            for f in sorted(fs):
                if f.endswith((".cpp", ".hpp", ".h")):
                    h.update(os.path.relpath(os.path.join(p, f), ir.ROOT).encode())
                    h.update(open(os.path.join(p, f), "rb").read())
    for f in sorted(os.listdir(os.path.join(ir.VERIF, "harness"))):
        h.update(open(os.path.join(ir.VERIF, "harness", f), "rb").read())
    return h.hexdigest()[:20]


def compile_one(src, out, flags):
    if os.path.exists(out):
        return None
    tmp = f"{out}.{os.getpid()}"
    r = subprocess.run([CXX, "-c", src, "-o", tmp] + BASE + incs() + flags, capture_output=True, text=True)
    if r.returncode != 0:
        return f"{src}: {r.stderr[-1500:]}"
    os.rename(tmp, out)
    return None


def sources(l):
    every = [s for s in ir.sources() if s.startswith("src/") and s != "src/main.cpp"]
    return every if l == "all" else [s for q in l for s in (every if q == "all" else [q])]


def programs(d, progs):
    """programs of the repository, built from its current sources; dump_*: with a stand-in from the harness, left out if it does not fit"""
    where = lambda s: os.path.join(ir.VERIF if s.startswith("harness/") else ir.ROOT, s)
    jobs = {s: os.path.join(d, s.replace("/", "_") + ".o") for l in progs.values() for s in sources(l)}
    with ThreadPoolExecutor(8) as ex:
        errs = dict(zip(jobs, ex.map(lambda j: compile_one(where(j[0]), j[1], []), jobs.items())))
    for p, l in progs.items():
        exe = os.path.join(d, p)
        bad = [errs[s] for s in sources(l) if errs[s]]
        if not bad and not os.path.exists(exe):
            tmp = f"{exe}.{os.getpid()}"
            r = subprocess.run([CXX] + [jobs[s] for s in sources(l)] + ["-o", tmp, "-lyaml-cpp", "-lpthread"], capture_output=True, text=True)
            if r.returncode != 0:
                bad = [r.stderr[-1500:]]
            else:
                os.rename(tmp, exe)
        if bad and not p.startswith("dump_"):
            return "\n".join(bad)
    return None


def build(name, mod):
    """-> (binary, error)"""
    dg = tree_digest()
    d = os.path.join(OBJ, dg)
    os.makedirs(d, exist_ok=True)
    for o in os.listdir(OBJ):  # keep the cache small
        p = os.path.join(OBJ, o)
        if o != dg and time.time() - os.path.getmtime(p) > 1800:
            subprocess.run(["rm", "-rf", p])
    san = getattr(mod, "SANITIZE", False)
    xf, xl = getattr(mod, "FLAGS", []), getattr(mod, "LINK", [])
    tag = ("-san" if san else "") + ("-" + hashlib.sha256(" ".join(xf).encode()).hexdigest()[:6] if xf else "")
    exe = os.path.join(d, name + tag)
    progs = getattr(mod, "PROGRAMS", {})
    if os.path.exists(exe) and all(os.path.exists(os.path.join(d, p)) for p in progs if not p.startswith("dump_")):
        return exe, None
    srcs = sources(getattr(mod, "SOURCES", "all"))
    fl = (SAN if san else []) + xf
    err = programs(d, progs)
    if err:
        return None, err
    jobs = [(os.path.join(ir.ROOT, s), os.path.join(d, s.replace("/", "_") + tag + ".o"), fl) for s in srcs]
    jobs.append((os.path.join(ir.VERIF, "harness", name + ".cpp"), os.path.join(d, name + tag + ".o"), fl + ["-fno-access-control"]))
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(*j), jobs) if e]
    if errs:
        return None, "\n".join(errs)
    tmp = f"{exe}.{os.getpid()}"
    r = subprocess.run([CXX] + [f for f in fl if f != "-fopenmp"] + [j[1] for j in jobs] + ["-o", tmp, "-lyaml-cpp", "-lpthread"] + xl, capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr[-2000:]
    os.rename(tmp, exe)
    return exe, None


def run(name, pid, tier, seed, mod):
    t0 = time.time()
    exe, err = build(name, mod)
    if err:
        return {"status": "not built", "text": err[-1500:], "info": f"{name}: the replay harness does not compile against this tree"}
    n = getattr(mod, "CASES", {"quick": 2000, "thorough": 20000})[tier]
    scratch = os.path.join(SCRATCH, f"{pid}-{os.getpid()}")
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, OMP_NUM_THREADS="1", UBSAN_OPTIONS="print_stacktrace=0", TSAN_OPTIONS="halt_on_error=1 exitcode=66 report_signal_unsafe=0", MPSV_REPO=ir.ROOT, MPSV_PROGRAMS=os.path.dirname(exe))
    try:
        r = subprocess.run([exe, pid, str(seed), str(n)], capture_output=True, text=True, errors="replace", cwd=scratch, env=env,
                           timeout=250 if tier == "quick" else 1500, stdin=subprocess.DEVNULL)
        rc, out, er = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return {"status": "timeout", "text": "", "info": f"{name}: time limit"}
    finally:
        subprocess.run(["rm", "-rf", scratch])
    er = "\n".join(l for l in er.splitlines() if not re.match(r"WARNING: particle|x = |ERROR: Courant", l))
    res = {"cmd": f"{exe} {pid} {seed} {n}", "wall_s": round(time.time() - t0, 2)}
    if rc == 0:
        m = re.search(r"PASS (.*)", out)
        if not m:
            return dict(res, status="no result", text=(out + er)[-800:])
        return dict(res, status="pass", text=m.group(1), info=f"{name} (bounded, {n} random cases, seed {seed}): {m.group(1)}")
    m = re.search(r"FAIL (.*)", out, re.S)
    if rc == 1 and m:
        return dict(res, status="fail", text=m.group(1)[:3000], info=f"{name}: failing input found")
    if "ThreadSanitizer: data race" in er:
        return dict(res, status="fail", text=er[-3000:], info=f"{name}: data race found")
    if rc < 0 or rc >= 128 or "runtime error" in er or "Assertion" in er:
        return dict(res, status="fail", text=("abnormal end of the real code: rc=%d " % rc) + out[-1500:] + er[-1500:], info=f"{name}: abnormal end")
    return dict(res, status="no result", text=(out + er)[-800:], info=f"{name}: ended with {rc}")
