#!/usr/bin/env python3
"""mut.py ID[,ID] file <<< 'old\n===\nnew'  -- run checks against a scratch copy with one replacement (development aid)"""
import sys, os, subprocess, shutil, tempfile
ids = sys.argv[1].split(",")
d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
subprocess.check_call(["rsync", "-a", "--exclude", "_build", "--exclude", ".git", os.environ.get("MUT_BASE", "/repo") + "/", d]) if shutil.which("rsync") else \
    subprocess.check_call("cd " + os.environ.get("MUT_BASE", "/repo") + " && tar cf - --exclude=./_build --exclude=./.git . | tar xf - -C %s" % d, shell=True)
txt = sys.stdin.read()
for chunk in txt.split("\n@@@@\n"):
    old, new = chunk.split("\n===\n")
    fn = sys.argv[2]
    if old.startswith("FILE "):
        fn, old = old.split("\n", 1)
        fn = fn[5:]
    new = new.rstrip("\n")
    p = os.path.join(d, fn)
    s = open(p, encoding="latin-1").read()
    old = old.strip("\n"); new = new.strip("\n")
    if old not in s:
        print("OLD TEXT NOT FOUND in", fn, ":", old[:60]); sys.exit(9)
    s = s.replace(old, new, 1)
    open(p, "w", encoding="latin-1").write(s)
e = dict(os.environ, SA_REPO=d)
for i in ids:
    r = subprocess.run([sys.executable, "/verif/sa/run.py", i], env=e, capture_output=True, text=True)
    print("exit", r.returncode, (r.stdout + r.stderr)[-1500:])
shutil.rmtree(d)
