#!/usr/bin/env python3
"""catch.py [seed ...]: runs each planted bug's check in a scratch copy of /repo and records what caught it
in tools/catches.json (used by tools/design.py for DESIGN.md; no check reads it)"""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = os.path.join(V, "tools", "catches.json")
res = json.load(open(J)) if os.path.exists(J) else {}
ids = sys.argv[1:] or [s for s in sorted(os.listdir(V + "/seeded")) if s not in res]
tmp = tempfile.mkdtemp(prefix="catch")
subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
for s in ids:
    prop = json.load(open(f"{V}/seeded/{s}/meta.json"))["property"]
    subprocess.run(["git", "-C", tmp + "/r", "checkout", "-q", "--", "."], check=True)
    if subprocess.run(["git", "-C", tmp + "/r", "apply", f"{V}/seeded/{s}/patch.diff"]).returncode:
        print(s, "patch does not apply"); continue
    p = subprocess.run([sys.executable, "run.py", prop], cwd=V, env=dict(os.environ, REPO=tmp + "/r", VERIF_BUILD=os.environ.get("CATCH_BUILD", tmp + "/b")), capture_output=True, text=True)
    r = dict(property=prop, exit=p.returncode, obligations=[], falsifier=False)
    if p.returncode == 1:
        d = json.load(open(f"{V}/replay/{prop}.json"))
        r["obligations"] = [f"{o['unit']}/{o['function']}" for o in d["failed_obligations"]]
        r["falsifier"] = bool(d["failing_inputs"])
    res[s] = r
    json.dump(res, open(J, "w"), indent=1, sort_keys=True)
    print(s, r, flush=True)
shutil.rmtree(tmp)
