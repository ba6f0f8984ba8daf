#!/usr/bin/env python3
"""developer helper: mkseed.py <id> — validate /verif/seeded/<id> (patch.diff, demo.cpp|demo.sh, meta.json):
build+stable tests with the patch, demo fails; demo passes without. Uses a scratch copy of /repo under /tmp."""
import sys, os, subprocess, json, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
DEMO = '''#!/bin/bash
# builds demo.cpp against the libraries of the built tree and runs it
d="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
L=_build/src
g++ -std=c++17 -O1 -Iinclude/mqt-core -Iinclude -I$L $(for m in ir qasm3 circuit_optimizer dd zx na datastructures algorithms; do echo "-I$L/$m"; done) "$d/demo.cpp" \\
  $L/algorithms/libmqt-core-algorithms.a $L/dd/libmqt-core-dd.a $L/zx/libmqt-core-zx.a $L/na/libmqt-core-na.a $L/datastructures/libmqt-core-ds.a \\
  $L/circuit_optimizer/libmqt-core-circuit-optimizer.a $L/qasm3/libmqt-core-qasm.a $L/ir/libmqt-core-ir.a -o "$w/demo" || exit 2
cd "$w" && timeout 120 ./demo
'''
def main(sid):
    d = f"{HERE}/seeded/{sid}"
    if not os.path.exists(d + "/demo.sh"):
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    r = sh("git status --short", cwd="/repo").stdout.strip()
    if r: print("repo dirty", r); return 1
    base = sh(f"bash {d}/demo.sh", cwd="/repo")
    print("clean demo rc", base.returncode, base.stdout[-300:])
    a = sh(f"git apply {d}/patch.diff", cwd="/repo")
    if a.returncode: print("patch does not apply", a.stdout); return 1
    try:
        b = sh(f"bash {HERE}/stable.sh")
        print("patched:", b.stdout.strip().splitlines()[-1][:300])
        t = sh(f"bash {d}/demo.sh", cwd="/repo")
        print("patched demo rc", t.returncode, t.stdout[-300:])
        if len(sys.argv) > 2 and sys.argv[2] == "check":
            p = json.load(open(d + "/meta.json"))["property"]
            c = sh(f"python3 {HERE}/run.py {p}")
            print(c.stdout[-1500:], "CHECK rc", c.returncode)
    finally:
        sh("git checkout -- .", cwd="/repo")
        sh("bash /verif/notag.sh bash /opt/vp/build.sh")
    ok = base.returncode == 0 and t.returncode != 0 and "missing: []" in b.stdout
    print(sid, "VALID" if ok else "INVALID")
    return 0 if ok else 1
sys.exit(main(sys.argv[1]))
