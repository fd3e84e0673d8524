#!/usr/bin/env python3
"""mk.py ID PROPERTY < spec: writes seeded/ID/patch.diff and meta.json from replacements of text in a clone at /tmp/w.

The spec is JSON: {"needs": ..., "breaks": ..., "edits": [[file, old, new], ...]}"""
import json, os, shutil, subprocess, sys
W = "/tmp/w"
V = os.environ.get("VERIF", "/verif")
def make(id, prop, needs, breaks, edits, demo, helper=True):
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
    for f, old, new in edits:
        p = os.path.join(W, f)
        t = open(p).read()
        assert t.count(old) == 1, (id, f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "-C", W, "diff"], check=True, stdout=subprocess.PIPE).stdout
    open(d + "/patch.diff", "wb").write(diff)
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/meta.json", "a").write("\n")
    if demo is not None:
        open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom proxylib import *\n\n" + demo)
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 280 python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
    if helper:
        shutil.copy(V + "/tools/seeding/proxylib.py", d + "/proxylib.py")
