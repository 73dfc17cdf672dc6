"""Plant a bug: python3 plant.py SPEC.py
SPEC defines BUGS = [dict(name, property, edits=[(file, old, new)], demo, needs, breaks, stubs=bool, flags=str)]
Makes the edits in a scratch clone, writes /verif/seeded/<name>/, runs the demo on both trees.
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant_wt"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def plant(b):
    d = os.path.join(V, "seeded", b["name"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh("git -C %s checkout -q -- ." % W)
    for f, old, new in b["edits"]:
        p = os.path.join(W, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            print(b["name"], "edit text found", n, "times in", f)
            return False
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % W).stdout)
    open(d + "/demo.cc", "w").write(b["demo"])
    if b.get("stubs", True):
        shutil.copytree(V + "/stubs", d + "/stubs")
    inc = "-Iinclude -Iinclude/tree_topology -Iinclude/physics -Iinclude/physics/eos -Impisph -Iapp/drivers/include"
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# run in the root of the source tree; exit 0 iff the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'find "$T" -delete' EXIT
g++ -std=c++17 -O1 -w -fpermissive %s %s %s "$D/demo.cc" %s -Wl,--unresolved-symbols=ignore-all -pthread -o "$T/demo" || exit 3
cd "$T" && timeout 200 ./demo
""" % (b.get("flags", ""), '-I"$D/stubs" -include prelude.h' if b.get("stubs", True) else "", inc, b.get("link", "")))
    os.chmod(d + "/demo.sh", 0o755)
    for n, t in b.get("files", {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
    r1 = sh("bash %s/demo.sh" % d, cwd=W)
    ok = r0.returncode == 0 and r1.returncode not in (0, 3)
    print(b["name"], "clean", r0.returncode, "patched", r1.returncode, "OK" if ok else "BAD",
          (r0.stderr + r0.stdout)[-600:] if r0.returncode else "", r1.stderr[-300:] if r1.returncode == 3 else "")
    return ok


if __name__ == "__main__":
    shutil.rmtree(W, ignore_errors=True)
    sh("git clone -q /repo %s" % W)
    ns = {"V": V}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns["BUGS"]:
        if not only or b["name"] in only:
            plant(b)
    shutil.rmtree(W)
