#!/usr/bin/env python3
"""Applies each planted bug of /verif/seeded to /repo in turn, runs its property's quick check (or the
properties named by --props), undoes it, and prints caught / missed.  Not a check; development only."""
import json, os, subprocess, sys, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
props = None
if args and args[0].startswith("--props="):
    props = args.pop(0)[8:].split(",")
ids = args or sorted(os.listdir(R + "/seeded"))
for i in ids:
    d = os.path.join(R, "seeded", i)
    p = json.load(open(d + "/meta.json"))["property"]
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], stdout=subprocess.PIPE, text=True).stdout == ""
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        for q in (props or [p]):
            t = time.time()
            r = subprocess.run([sys.executable, R + "/check.py", q, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            last = r.stdout.strip().split("\n")
            print(i, q, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), "%.1fs" % (time.time() - t), "|", " ".join(last[-2:])[:150], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
