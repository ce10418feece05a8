#!/usr/bin/env python3
"""Planted-bug helper (never used by a check).
 seed.py mk ID PROP 'needs' 'breaks' FILE <<< python-edit   -- not used at check time
 seed.py test ID [check]  -- apply to /repo, build, run stable tests, demo, (check), undo"""
import sys, subprocess, json, os
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def stable():
    sh("bash /opt/vp/test.sh /tmp/seed_o.json"); o = json.load(open("/tmp/seed_o.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    return [x for x in b["stable"] if x not in o["passed"]]
def test(i, check):
    d = f"{V}/seeded/{i}"; prop = json.load(open(d + "/meta.json"))["property"]; out = {"id": i, "prop": prop}
    r = sh("bash /opt/vp/build.sh"); assert r.returncode == 0
    out["demo_clean"] = sh(f"bash {d}/demo.sh", cwd="/repo").returncode
    r = sh(f"git -C /repo apply {d}/patch.diff"); assert r.returncode == 0, r.stdout
    try:
        out["build"] = sh("bash /opt/vp/build.sh").returncode
        out["failing_tests"] = stable()
        out["demo_bug"] = sh(f"timeout 60 bash {d}/demo.sh", cwd="/repo").returncode
        if check:
            r = sh(f"python3 {V}/run.py {prop}"); out["check"] = r.returncode; out["caught"] = f"VIOLATION property={prop} " in r.stdout.decode(errors="replace"); out["out"] = r.stdout.decode(errors="replace")[-700:]
    finally:
        sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh")
    ok = out["demo_clean"] == 0 and out["build"] == 0 and not out["failing_tests"] and out["demo_bug"] != 0
    print("VALID" if ok else "INVALID", "CAUGHT" if out.get("caught") else "-", json.dumps(out)); return ok
if sys.argv[1] == "test":
    ids = sys.argv[2].split(",") if sys.argv[2] != "all" else sorted(os.listdir(V + "/seeded"))
    for i in ids: test(i, "nocheck" not in sys.argv)
