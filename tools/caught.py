#!/usr/bin/env python3
"""Runs the check of each planted bug against a scratch copy of /repo/include with the bug; writes tools/caught.json.  usage: caught.py [NAME...]"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = V + "/tools/caught.json"
res = json.load(open(F)) if os.path.exists(F) else {}
names = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for n in names:
    d = f"{V}/seeded/{n}"
    pid = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="seed")
    shutil.copytree("/repo/include", w + "/include")
    r = subprocess.run(["patch", "-p1", "-s", "-d", w, "-i", d + "/patch.diff"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        res[n] = "patch does not apply"
        print(n, r.stdout)
        continue
    r = subprocess.run(["python3-vt", V + "/check.py", pid], cwd=V, env=dict(os.environ, VERIF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    m = re.search(r"^VIOLATION .*", r.stdout, re.M)
    obl = re.findall(r"^refuted: ([^\n]*)", r.stdout, re.M)
    if m:
        res[n] = f"Caught by {pid}" + (" (no failing input)" if "no-failing" in m.group(0) else " (failing input replayed)") + (": " + obl[0][:140] if obl else "") + "."
    else:
        res[n] = f"Missed by {pid}."
    print(n, "->", res[n], flush=True)
    shutil.rmtree(w)
    json.dump(res, open(F, "w"), indent=1, sort_keys=True)
