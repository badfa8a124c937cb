#!/usr/bin/env python3
"""Creates and confirms one planted bug under /verif/seeded. Usage: plant.py SPEC.py
SPEC defines: id, prop, edits=[(file, old, new)], demo (C++ or shell text), needs, breaks. Not used by any check."""
import json, os, subprocess, sys
V = "/verif"; R = "/repo"
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# builds demo.cpp against the library in the current directory and runs it in a scratch directory
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -O1 -g -funsigned-char -w -DCENTAURUS_BUILD_LINUX -Isrc/core "$HERE/demo.cpp" _build/libcentaurus.a -lpthread -lrt -o "$T/demo" || exit 99
ROOT=$PWD; cd "$T" && timeout 120 ./demo "$ROOT"
'''


def main():
    for sp in sys.argv[1:]:
        one(sp)


def one(sp):
    g = {}; exec(open(sp).read(), g)
    d = "%s/seeded/%s" % (V, g["id"]); os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
    if "demo_sh" in g:
        open(d + "/demo.sh", "w").write(g["demo_sh"])
        for n, t in g.get("files", {}).items(): open(d + "/" + n, "w").write(t)
    else:
        open(d + "/demo.sh", "w").write(DEMO); open(d + "/demo.cpp", "w").write(g["demo"])
    os.chmod(d + "/demo.sh", 0o755)
    try:
        for f, o, n in g["edits"]:
            s = open(R + "/" + f, newline="").read()
            if "\r\n" in s: o = o.replace("\n", "\r\n"); n = n.replace("\n", "\r\n")
            assert s.count(o) == 1, (f, o, s.count(o))
            open(R + "/" + f, "w", newline="").write(s.replace(o, n))
        diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(diff)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(b.stdout[-3000:]); raise SystemExit("build failed")
        sh("bash /opt/vp/test.sh /tmp/out.json")
        res = json.load(open("/tmp/out.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [t for t in st if t not in res["passed"]]
        r1 = sh("bash %s/demo.sh" % d, cwd=R)
        chk = None
        if os.path.exists("%s/checks/%s.py" % (V, g["prop"])) and not os.environ.get("NOCHECK"):
            chk = sh("python3 checks/%s.py" % g["prop"], cwd=V)
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    r0 = sh("bash %s/demo.sh" % d, cwd=R)
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    ok = not miss and r1.returncode not in (0, 99) and r0.returncode == 0
    print(g["id"], "OK" if ok else "BAD", "missing", miss, "patched rc", r1.returncode, "clean rc", r0.returncode, r1.stdout[-200:].strip(), r0.stdout[-300:] if r0.returncode else "")
    if chk is not None:
        print("   check rc", chk.returncode, [l for l in chk.stdout.splitlines() if "VIOLATION" in l or "rule:" in l or "BROKEN" in l][:4])


main()
