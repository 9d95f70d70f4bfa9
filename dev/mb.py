#!/usr/bin/env python3
"""mb.py IDs file < batch   batch: mutations separated by '#### [q|c] name' headers; each as in mut.py. q: must stay quiet, c: must be caught"""
import sys, re, subprocess, os
from concurrent.futures import ThreadPoolExecutor
txt = sys.stdin.read()
parts = re.split(r"^#### ([qc]) (.*)\n", txt, flags=re.M)[1:]
jobs = [(parts[i], parts[i+1], parts[i+2].rstrip("\n")+"\n") for i in range(0, len(parts), 3)]
def go(j):
    r = subprocess.run([sys.executable, "/verif/dev/mut.py"]+sys.argv[1:3], input=j[2], capture_output=True, text=True)
    return j, r.stdout+r.stderr
with ThreadPoolExecutor(4) as ex:
    for j, o in ex.map(go, jobs):
        codes = re.findall(r"^exit (\d+)", o, re.M)
        want = "0" if j[0] == "q" else "1"
        good = "Traceback" not in o and (want in codes) if want == "1" else all(c == "0" for c in codes) and codes
        print(("OK  " if good else "BAD ")+j[0], j[1], codes)
        if not good or "-v" in sys.argv: print(o[-900:])
        else:
            v = [l for l in o.splitlines() if l.startswith(("VIOLATION","  "))][:2]
            if j[0]=="c": print("     ", "\n      ".join(l[:160] for l in o.splitlines()[:3]))
