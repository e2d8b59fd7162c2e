#!/usr/bin/env python3
"""mkplant.py SPEC.py: write /verif/seeded/<id>/ for every entry of BUGS in the file.
An entry is (id, property, [(file, old, new), ...], needs, breaks, demo source)."""
import os, subprocess, sys, json, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -DTOON_USE_LAPACK%s -I . "$D/demo.cc" -o "$T/demo" -llapack -lblas && cd "$T" && timeout 60 ./demo
'''
for b in ns["BUGS"]:
    bid, prop, edits, needs, breaks, demo = b[:6]
    flags = b[6] if len(b) > 6 else ""
    w = "/tmp/mkplant_w"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    os.makedirs(w)
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (w, w), shell=True)
    for f, old, new in edits:
        s = open(os.path.join(w, f)).read()
        n = s.count(old)
        if n != 1:
            print(bid, f, "matches", n, repr(old)); sys.exit(1)
        open(os.path.join(w, f), "w").write(s.replace(old, new))
    d = "/verif/seeded/" + bid
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w, "diff"]).decode())
    open(d + "/demo.cc", "w").write(demo.lstrip())
    open(d + "/demo.sh", "w").write(SH % (" " + flags if flags else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
