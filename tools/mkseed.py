"""Writes /verif/seeded/<id>/ from the definitions in seeds.py and confirms each in a scratch copy.  usage: mkseed.py [id ...]"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS
OUT = os.path.join(os.path.dirname(HERE), "seeded")
DEMO = '''#!/bin/bash
# run with cwd /repo after its build: exit 0 when the property holds on the demonstrated case
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
t=$(mktemp -d /tmp/seeddemo.XXXXXX); trap 'rm -rf "$t"' EXIT
F="-std=gnu++17 -O1 -w @FLAGS@ -I$repo/src -I$repo/generator -I/usr/include/eigen3 -I/usr/include/libfccp -I$here"
ls @SOURCES@ | xargs -P 8 -I{} sh -c 'o=$(echo {} | tr / _).o; /usr/bin/g++ '"$F"' -c {} -o '"$t"'/$o' || exit 1
/usr/bin/g++ $F -c "$here/demo.cpp" -o "$t/demo.o" || exit 1
/usr/bin/g++ ${F/-fopenmp/} "$t"/*.o -o "$t/demo" -lyaml-cpp || exit 1
export TSAN_OPTIONS="halt_on_error=1 exitcode=66"; cd "$t" && mkdir w && cd w && timeout 60 ../demo "$repo"
'''

def sh(c, **k): return subprocess.run(c, capture_output=True, text=True, **k)

def write(sid, s):
    d = os.path.join(OUT, sid); os.makedirs(d, exist_ok=True)
    w = f"/tmp/seedw/{sid}"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    r = os.path.join(w, "repo")
    sh(["git", "clone", "-q", "/repo", r])
    for f, o, n in s["edits"]:
        p = os.path.join(r, f); t = open(p, newline="").read()
        if "\r\n" in t: o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
        if t.count(o) < 1: return f"{sid}: pattern not in {f}: {o[:50]!r}"
        open(p, "w", newline="").write(t.replace(o, n, 1))
    open(os.path.join(d, "patch.diff"), "wb").write(subprocess.run(["git", "-C", r, "diff"], capture_output=True).stdout)
    if "sh" in s:
        open(os.path.join(d, "demo.sh"), "w").write(s["sh"])
    else:
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@SOURCES@", s.get("sources", "src/*.cpp src/*/*.cpp src/*/*/*.cpp | grep -v main.cpp")).replace("@FLAGS@", s.get("flags", "")))
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip())
        shutil.copy(os.path.join(HERE, "seed_demo.hpp"), d)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, c in s.get("files", {}).items():
        open(os.path.join(d, n), "w").write(c.lstrip())
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    # confirm: clean 0, patched nonzero; demo from a foreign folder
    fd = os.path.join(w, "d"); os.makedirs(fd)
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy(os.path.join(d, f), fd)
    a = sh(["bash", fd + "/demo.sh"], cwd="/repo"); b = sh(["bash", fd + "/demo.sh"], cwd=r)
    msg = f"{sid}: clean {a.returncode} patched {b.returncode}"
    if a.returncode != 0: msg += "\n   !! CLEAN FAILS " + (a.stdout + a.stderr)[-1500:]
    if b.returncode == 0: msg += "\n   !! PATCHED PASSES"
    else: msg += "  | " + (b.stdout.strip().splitlines() or b.stderr.strip().splitlines() or [""])[-1][:150]
    # build and unit tests of the patched tree
    bd = os.path.join(w, "b")
    c = sh(f'. /opt/vp/env.sh; cmake -S {r} -B {bd} -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_CXX_FLAGS=-Wno-error -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS -DFETCHCONTENT_SOURCE_DIR_EIGEN=/usr/include/eigen3 -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest -DFETCHCONTENT_SOURCE_DIR_FAST-CPP-CSV-PARSER=/usr/include/libfccp -DFETCHCONTENT_SOURCE_DIR_ARGPARSE=/opt/vp/deps/argparse && ninja -C {bd} -j4 all', shell=True, executable="/bin/bash")
    if c.returncode != 0: return msg + "\n   !! BUILD FAILS " + (c.stdout + c.stderr)[-1500:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    x = sh([os.path.join(bd, "mps_test"), "--gtest_brief=0"], cwd=r)
    fl = [l for l in x.stdout.splitlines() if "FAILED" in l]
    msg += f"\n   tests rc={x.returncode} {fl[:3]}"
    shutil.rmtree(w, ignore_errors=True)
    return msg

if __name__ == "__main__":
    ids = sys.argv[1:] or list(SEEDS)
    with ThreadPoolExecutor(3) as ex:
        for m in ex.map(lambda i: write(i, SEEDS[i]), ids): print(m, flush=True)
