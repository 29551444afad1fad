#!/usr/bin/env python3
"""Development aid (not a check): makes and verifies planted bugs under /verif/seeded.
  seedtool.py verify ID [--check]   patch applies, builds, stable tests pass, demo fails with / passes without, check catches
"""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
DEMO = """#!/bin/bash
# exits 0 if the behaviour holds, nonzero otherwise; run with cwd = repository root
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"; rm -f /dev/shm/Sync_*-demo$$-*' EXIT
g++ -std=c++0x -g -w -I . -o "$tmp/demo" "$here/demo.cpp" %SRC% -pthread -lrt -ldl || exit 2
cd "$tmp" && timeout -k 2 %TO% ./demo "demo$$-" 
rc=$?
[ $rc -eq 0 ] && exit 0
echo "demo: exit $rc"; exit 1
"""
ALL = "$(ls convert/*.cpp security/*.cpp sync/*.cpp templates/*.cpp environment/*.cpp utf8/*.cpp json/*.cpp)"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh("git -C /repo checkout -- .")
def make(id, prop, needs, breaks, edits, demo, to=60, src=ALL):
    d = os.path.join(S, id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    clean()
    for f, old, new in edits:
        p = os.path.join("/repo", f); s = open(p, encoding="latin-1", newline="").read()
        n = s.count(old)
        if n != 1: clean(); raise SystemExit("%s: %d matches in %s for %r" % (id, n, f, old))
        open(p, "w", encoding="latin-1", newline="").write(s.replace(old, new))
    diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout.decode("latin-1")
    clean()
    open(os.path.join(d, "patch.diff"), "w", encoding="latin-1").write(diff)
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("%SRC%", src).replace("%TO%", str(to)))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests"):
        if k in b: return set(b[k])
    return set(b)
def demo(id):
    t = tempfile.mkdtemp(); d = os.path.join(t, "x")
    shutil.copytree(os.path.join(S, id), d)
    for f in os.listdir(d):
        if f.endswith(".diff") or f == "meta.json": os.remove(os.path.join(d, f))
    r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    shutil.rmtree(t); return r.returncode, r.stdout
def verify(id, chk=True, base=True):
    meta = json.load(open(os.path.join(S, id, "meta.json")))
    res = []
    try:
        r = sh("git -C /repo apply %s/%s/patch.diff" % (S, id))
        if r.returncode: return id + ": patch does not apply " + r.stdout
        r = sh("bash /opt/vp/test.sh /tmp/out.json")
        o = json.load(open("/tmp/out.json"))
        passed = set(o.get("passed", []))
        miss = stable() - passed
        if miss: res.append("TESTS FAIL: %s" % sorted(miss)[:3])
        rc, out = demo(id)
        if rc == 0: res.append("DEMO PASSES WITH PATCH")
        if rc == 2: res.append("DEMO BROKEN " + out[-800:])
        if chk:
            r = sh("cd %s && python3 tools/check.py %s --tier quick" % (V, meta["property"]), timeout=900)
            ok = r.returncode == 1 and "VIOLATION property=%s" % meta["property"] in r.stdout
            cls = [l for l in r.stdout.splitlines() if l.startswith("violation class")]
            res.append(("caught: " + cls[0][:150]) if ok else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:]))
    finally:
        clean()
    if base:
        sh("bash /opt/vp/build.sh"); rc, out = demo(id)
        if rc: res.append("DEMO FAILS ON BASE: " + out[-600:])
    return "%s (%s): %s" % (id, meta["property"], "; ".join(res))
if __name__ == "__main__":
    if sys.argv[1] == "verify":
        ids = [x for x in sys.argv[2:] if not x.startswith("-")] or sorted(os.listdir(S))
        for i in ids: print(verify(i, "--nocheck" not in sys.argv), flush=True)
