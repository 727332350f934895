#!/usr/bin/env python3
"""check.py [--tier T] [--props p,p] [ids]: applies each planted bug to /repo, runs the check of its property, and undoes it."""
import json, os, subprocess, sys, time
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", ".."))
args = sys.argv[1:]; tier = "quick"; props = None
if "--tier" in args: i = args.index("--tier"); tier = args[i+1]; del args[i:i+2]
if "--props" in args: i = args.index("--props"); props = args[i+1].split(","); del args[i:i+2]
ids = args or sorted(os.listdir(V + "/seeded"))
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]), "/repo not clean"
for i in ids:
    d = f"{V}/seeded/{i}"
    p = json.load(open(d + "/meta.json"))["property"]
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        for q in props or [p]:
            t = time.time()
            r = subprocess.run(["bash", V + "/check.sh", q, tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            hit = f"VIOLATION property={q} " in r.stdout
            what = [l[5:].strip() for l in r.stdout.splitlines() if l.startswith("what:")]
            print(f"{i:28} {q} {'caught' if r.returncode == 1 and hit else 'MISSED rc=%d' % r.returncode} {time.time()-t:.0f}s {what[0][:150] if what else r.stdout[-300:] if not hit else ''}", flush=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
