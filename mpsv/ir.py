"""Extraction of the real sources (through the clang-based frontend) and the merged program database."""
import hashlib
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.environ.get("MPSV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("MPSV_CACHE", os.path.join(VERIF, ".cache"))
FRONT = os.path.join(CACHE, "cxx2ir")
FRONT_SRC = os.path.join(VERIF, "frontend", "cxx2ir.cpp")
FLAGS = ["-std=gnu++17", "-DNDEBUG", "-fopenmp", "-isystem", os.path.join(VERIF, "frontend", "include"),
         "-I/usr/include/eigen3", "-I/usr/include/libfccp", "-resource-dir=/usr/lib/llvm-18/lib/clang/18", "-w"]


class ExtractError(Exception):
    pass


def build_frontend():
    os.makedirs(CACHE, exist_ok=True)
    stamp = FRONT + ".stamp"
    h = hashlib.sha256(open(FRONT_SRC, "rb").read()).hexdigest()
    if os.path.exists(FRONT) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    tmp = f"{FRONT}.{os.getpid()}"
    cmd = ["g++", "-O1", "-std=c++17", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", "-D__STDC_CONSTANT_MACROS",
           "-D__STDC_LIMIT_MACROS", FRONT_SRC, "-o", tmp, "-L/usr/lib/llvm-18/lib",
           "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise ExtractError("frontend build failed:\n" + r.stderr[-3000:])
    os.rename(tmp, FRONT)
    with open(stamp, "w") as f:
        f.write(h)


def sources():
    out = []
    for d in ("src", "generator"):
        for p, _, fs in os.walk(os.path.join(ROOT, d)):
            for f in fs:
                if f.endswith(".cpp"):
                    out.append(os.path.relpath(os.path.join(p, f), ROOT))
    return sorted(out)


def _extract(rel):
    r = subprocess.run([FRONT, ROOT, os.path.join(ROOT, rel), "--"] + FLAGS, capture_output=True, text=True, cwd=ROOT)
    if r.returncode != 0:
        raise ExtractError(f"{rel}: extraction failed: {r.stderr[-1500:]}")
    return json.loads(r.stdout)


class Program:
    """All functions and records of the translation units asked for, merged by signature."""

    def __init__(self, rels=None):
        build_frontend()
        self.rels = rels or sources()
        self.functions = {}
        self.records = {}
        self.byname = {}
        with ThreadPoolExecutor(8) as ex:
            tus = list(ex.map(_extract, self.rels))
        self.digest = hashlib.sha256()
        for rel, tu in zip(self.rels, tus):
            types = tu["types"]
            for f in tu["functions"]:
                f["types"] = types
                f["tu"] = rel
                key = f["key"]
                if f["q"] == "main":
                    key = f"main@{rel}"
                if key not in self.functions:
                    self.functions[key] = f
                    self.byname.setdefault(f["q"] if f["q"] != "main" else key, []).append(f)
            for r in tu["records"]:
                if r["q"] not in self.records:
                    r["types"] = types
                    self.records[r["q"]] = r
        self.nfun = len(self.functions)

    def fn(self, q):
        """the unique function with qualified name q"""
        l = self.byname.get(q, [])
        if not l:
            raise ExtractError(f"function {q} not found in the sources")
        if len(l) > 1:
            raise ExtractError(f"function {q} is ambiguous")
        return l[0]

    def has(self, q):
        return bool(self.byname.get(q))

    def overriders(self, key):
        return [f for f in self.functions.values() if key in f.get("overrides", [])]


_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program()
    return _prog
