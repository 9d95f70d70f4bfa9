#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE 'needs' 'what it breaks' < 'old\n===\nnew' (several: @@@@) : writes /verif/seeded/ID/{patch.diff,meta.json,demo.sh}"""
import sys, os, json, subprocess, tempfile
i, prop, fn, needs, what = sys.argv[1:6]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
out = []
txt = sys.stdin.read()
orig = {}
for chunk in txt.split("\n@@@@\n"):
    old, new = chunk.split("\n===\n")
    f = fn
    if old.startswith("FILE "):
        f, old = old.split("\n", 1); f = f[5:]
    old, new = old.strip("\n"), new.strip("\n")
    p = "/repo/" + f
    if f not in orig:
        orig[f] = [open(p, encoding="latin-1").read()] * 2
    s = orig[f][1]
    if s.count(old) != 1:
        sys.exit("old text occurs %d times in %s: %s" % (s.count(old), f, old[:50]))
    orig[f][1] = s.replace(old, new)
for f, (a, b) in orig.items():
    with tempfile.TemporaryDirectory() as t:
        for n, s in (("a", a), ("b", b)):
            q = os.path.join(t, n, f); os.makedirs(os.path.dirname(q)); open(q, "w", encoding="latin-1").write(s)
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + f, "b/" + f], cwd=t, capture_output=True)
        out.append(r.stdout)
open(d + "/patch.diff", "wb").write(b"".join(out))
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
p = d + "/demo.sh"
if not os.path.exists(p):
    open(p, "w").write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\nmk demo "$here/demo.c"\ncd "$W" && timeout 60 ./demo\n')
subprocess.check_call(["cp", "/verif/dev/seedlib/lib.sh", d])
subprocess.check_call(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"])
