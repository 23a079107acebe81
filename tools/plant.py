"""Confirm a planted bug in a scratch copy of /repo and store it under /verif/seeded/<id>.
usage: plant.py SPEC.py [id...]   SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]
"""
import sys, os, subprocess, shutil, json, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
PKG = "high_order_layers_torch/"
stable = json.load(open("/opt/vp/BASELINE.json"))
env = dict(os.environ, HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", CUDA_VISIBLE_DEVICES="", MPLBACKEND="Agg", PYTHONPATH="/opt/vp/plugins")
HEAD = """import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import math, random, copy
import numpy as np
import torch
"""
for b in spec["BUGS"]:
    if only and b["id"] not in only:
        continue
    w = tempfile.mkdtemp(prefix="plant_")
    r = os.path.join(w, "repo")
    try:
        subprocess.check_call(["cp", "-a", "/repo", r])
        ok = True
        for f, o, n, *k in b["edits"]:
            p = os.path.join(r, PKG + f)
            t = open(p).read()
            if not k and t.count(o) != 1 or t.count(o) <= (k or [0])[0]:
                print(b["id"], "edit text occurs", t.count(o), "times in", f); ok = False; break
            at = -1
            for _ in range((k or [0])[0] + 1):
                at = t.index(o, at + 1)
            open(p, "w").write(t[:at] + n + t[at + len(o):])
        if not ok:
            continue
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
        d = os.path.join(w, "demo")
        os.makedirs(d)
        open(os.path.join(d, "demo.py"), "w").write(HEAD + b["demo"].strip("\n") + "\n")
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= \nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        e2 = {k: v for k, v in env.items() if k != "PYTHONPATH"}
        good = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", env=e2, capture_output=True, text=True)
        bad = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=r, env=e2, capture_output=True, text=True)
        if good.returncode != 0 or bad.returncode == 0:
            print(b["id"], "DEMO good", good.returncode, good.stderr[-400:], "bad", bad.returncode); continue
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-n0", "-p", "no:cacheprovider", "-p", "vp_seed", "--ignore=tests/test_examples.py", "--junitxml", os.path.join(w, "j.xml"), "tests"] if False else
                       ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=300", "--continue-on-collection-errors", "--ignore=tests/test_examples.py", "-o", "junit_family=xunit2", "--junitxml", os.path.join(w, "j.xml"), "tests"], cwd=r, env=env, capture_output=True)
        subprocess.run(["python3", "/opt/vp/results.py", os.path.join(w, "o.json"), "junit:" + os.path.join(w, "j.xml")], capture_output=True)
        res = json.load(open(os.path.join(w, "o.json")))
        passed = set(res.get("passed", res.get("pass", [])))
        st = set(stable.get("tests", stable.get("stable", stable.get("passed", []))))
        miss = st - passed
        if not st or miss:
            print(b["id"], "TESTS fail:", len(miss), sorted(miss)[:4], "stable", len(st)); continue
        out = f"/verif/seeded/{b['id']}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(d, f), out)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
        print(b["id"], "OK")
    finally:
        shutil.rmtree(w, ignore_errors=True)
