#!/usr/bin/env python3
"""Make and confirm a planted bug.

plant.py ID           confirm seeded/ID/patch.diff: applies, builds, passes the tests, demo
                      passes without and fails with it, and run its property's check
plant.py --all        the same for all
With -n: do not run the check.   With -p PROP,PROP: run these checks instead.

It applies the patch in /repo and undoes it again.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)



def one(bid, props, nocheck):
    sd = os.path.join(HERE, "seeded", bid)
    meta = json.load(open(os.path.join(sd, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="plant_")
    demo = os.path.join(tmp, "d")
    shutil.copytree(sd, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    out = [bid, meta["property"]]
    ok = True
    subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = sh("bash", os.path.join(demo, "demo.sh"), cwd="/repo")
    if r.returncode:
        ok = False
        out.append("DEMO FAILS ON BASE: " + r.stdout.decode(errors="replace")[-1500:])
    time.sleep(1.2)         # bmake sees whole seconds only
    r = sh("git", "-C", "/repo", "apply", os.path.join(sd, "patch.diff"))
    if r.returncode:
        print(out, "PATCH DOES NOT APPLY", r.stdout.decode())
        shutil.rmtree(tmp)
        return
    time.sleep(1.2)
    try:
        r = sh("bash", "/opt/vp/build.sh")
        if r.returncode:
            ok = False
            out.append("BUILD FAILS " + r.stdout.decode()[-800:])
        r = sh("bash", "/opt/vp/test.sh", os.path.join(tmp, "o.json"))
        t = r.stdout.decode()
        if "119 passed, 0 failed" not in t:
            ok = False
            out.append("TESTS " + t[-300:])
        r = sh("bash", os.path.join(demo, "demo.sh"), cwd="/repo", timeout=300)
        if r.returncode == 0:
            ok = False
            out.append("DEMO PASSES WITH PATCH")
        else:
            out.append("demo: " + r.stdout.decode(errors="replace").strip()[-200:])
        if not nocheck:
            for p in props or [meta["property"]]:
                r = sh("python3", "check.py", p, cwd=HERE)
                t = r.stdout.decode(errors="replace")
                v = [x[:220] for x in t.splitlines() if x.startswith("  [")][:3]
                out.append("%s: %s %s | %s" % (p, {0: "MISSED", 1: "CAUGHT"}.get(r.returncode, "rc=%d" % r.returncode),
                    v, t.splitlines()[-1][:160] if t else ""))
    finally:
        time.sleep(1.2)
        sh("git", "-C", "/repo", "checkout", "--", ".")
        time.sleep(1.2)
        sh("bash", "/opt/vp/build.sh")
        shutil.rmtree(tmp)
    print("OK " if ok else "BAD", "\n   ".join(out), flush=True)


a = sys.argv[1:]
nocheck = "-n" in a
if nocheck:
    a.remove("-n")
props = None
if "-p" in a:
    i = a.index("-p")
    props = a[i + 1].split(",")
    del a[i:i + 2]
if a == ["--all"]:
    a = sorted(os.listdir(os.path.join(HERE, "seeded")))
for b in a:
    one(b, props, nocheck)
