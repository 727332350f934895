#!/usr/bin/env python3
"""gen.py [ids]: makes /verif/seeded/<id> for planted bugs, confirms them in scratch copies of /repo.
Steps per bug: apply, build and run the stable tests, run the demo with and without the change."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from defs import SEEDS
import defs2, defs3, defs4, defs5, defs6, defs7
OUT = os.path.join(HERE, "..", "..", "seeded")
baseline = set(json.load(open("/opt/vp/BASELINE.json"))["passing"] if "passing" in json.load(open("/opt/vp/BASELINE.json")) else [])
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
pool = []; lock = threading.Lock()
def scratch():
    with lock:
        if pool: return pool.pop()
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp") + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", d])
    for n in ("test", "build"):
        open(d + f"/../{n}.sh", "w").write(open(f"/opt/vp/{n}.sh").read().replace("/repo", d))
    return d
def release(d):
    sh(["git", "-C", d, "checkout", "-q", "--", "."])
    with lock: pool.append(d)
def one(s):
    d = scratch()
    try:
        sd = os.path.join(OUT, s["id"]); os.makedirs(sd, exist_ok=True)
        open(sd + "/main.rs", "w").write(s["main"])
        shutil.copy(HERE + "/common.rs", sd + "/common.rs")
        demo = open(HERE + "/demo.sh").read().replace("@FEATURES@", ", ".join('"%s"' % f for f in s["features"])).replace("@DEPS@\n", s["deps"] + "\n" if s["deps"] else "")
        open(sd + "/demo.sh", "w").write(demo)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(sd + "/meta.json", "w"), indent=1)
        r = sh(["bash", os.path.abspath(sd + "/demo.sh")], cwd=d)
        if r.returncode: return s["id"], "DEMO FAILS UNPATCHED", r.stdout[-3000:]
        for f, a, b in s["edits"]:
            t = open(f"{d}/{f}").read()
            if t.count(a) < 1: return s["id"], "EDIT NOT FOUND", a
            open(f"{d}/{f}", "w").write(t.replace(a, b, 1))
        if "--fmt" in sys.argv: pass
        sh(["rustfmt", "--edition", "2024"] + [f"{d}/{f}" for f in {e[0] for e in s["edits"]}])
        patch = subprocess.run(["git", "-C", d, "diff"], stdout=subprocess.PIPE, text=True).stdout
        open(sd + "/patch.diff", "w").write(patch)
        r = sh(["bash", os.path.abspath(sd + "/demo.sh")], cwd=d)
        if r.returncode == 0: return s["id"], "DEMO PASSES PATCHED", ""
        if r.returncode == 101 or "panicked" in r.stdout: why = [l for l in r.stdout.splitlines() if l.strip()][-4:]
        else: why = r.stdout[-1500:]; 
        if "error: could not compile" in r.stdout: return s["id"], "DEMO DOES NOT COMPILE", r.stdout[-3000:]
        r = sh(["bash", d + "/../test.sh", d + "/../t.json"])
        try: t = json.load(open(d + "/../t.json"))
        except Exception as e: return s["id"], "TESTS GAVE NOTHING", r.stdout[-3000:]
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = set(base.get("passed") or base.get("stable") or base.get("passing") or [])
        got = set(t.get("passed") or t.get("passing") or [])
        missing = want - got
        if missing: return s["id"], "TESTS FAIL", sorted(missing)[:10]
        return s["id"], "ok", f"{len(got)} tests pass; demo: {why}"
    finally:
        release(d)
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
todo = [s for s in SEEDS if not ids or s["id"] in ids]
with cf.ThreadPoolExecutor(3) as ex:
    for i, st, info in ex.map(one, todo):
        print(i, st, info if st != "ok" else str(info)[:300], flush=True)
for d in pool: shutil.rmtree(os.path.dirname(d))
