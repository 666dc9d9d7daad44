#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <<< json {old,new,needs,breaks,demo}  - writes seeded/ID (edits: [[file, old, new], ..])"""
import json, os, shutil, subprocess, sys
def make(id, prop, edits, needs, breaks, demo):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    w = "/tmp/mkseed"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, old, new in edits:
        p = os.path.join(w, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    shutil.copy("/verif/tools/demo/demo.sh", d + "/demo.sh")
    open(d + "/demo.rs", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w, ignore_errors=True)
