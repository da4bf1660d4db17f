#!/usr/bin/env python3
"""Makes and confirms a planted bug: seed.py NAME PROPERTY FILE 'OLD' 'NEW' NEEDS BREAKS < demo.cpp
Confirms on /repo (undone afterwards): builds, tests pass, demo passes without and fails with the change. No check reads the result."""
import json, os, subprocess, sys
V = "/verif/seeded"
DEMO = '''#!/bin/bash
# run in the repository's root: exit 0 when the property holds on this demonstration
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
clang++-18 -std=c++23 -w -g -O1 -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -I"$d" -Iinclude "$d/demo.cpp" -o "$w/demo" -pthread 2>"$w/err" || { head -20 "$w/err"; exit 3; }
cd "$w" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
'''


def sh(c):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def main():
    name, prop, needs, breaks = sys.argv[1:5]
    edits = json.loads(sys.argv[5])       # [[file, old, new], ...]
    demo = sys.stdin.read()
    d = f"{V}/{name}"
    assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    ok = True
    try:
        base = sh(f"cd /repo && bash {d}/demo.sh")
        if base.returncode:
            print("demo fails on the clean tree", base.returncode, base.stdout[-1500:])
            ok = False
        for f, old, new in edits:
            t = open("/repo/" + f).read()
            if t.count(old) != 1:
                print("pattern occurs", t.count(old), "times in", f)
                ok = False
            open("/repo/" + f, "w").write(t.replace(old, new, 1))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        if ok:
            # only lines of the original repository may change
            r = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            o = json.load(open("/tmp/seed_out.json"))
            b = json.load(open("/opt/vp/BASELINE.json"))
            b = b.get("passed") or b.get("tests") or b.get("stable") or b
            missing = [x for x in b if x not in set(o["passed"])]
            if missing:
                print("tests broken:", missing[:5], r.stdout[-800:] if not o["passed"] else "")
                ok = False
            m = sh(f"cd /repo && bash {d}/demo.sh")
            print("demo with the patch:", m.returncode, m.stdout.strip()[-300:])
            if m.returncode in (0, 3):
                ok = False
    finally:
        sh("git -C /repo checkout -- .")
    if not ok:
        sh(f"rm -rf {d}")
    print(name, "KEPT" if ok else "DROPPED")


main()
