#!/usr/bin/env python3
"""Mutation testing of the checks: which small changes of the library does no check report?

mutate.py [--workers N] [--file reader.rs] [--every K] [--offset O] OUT.jsonl
Every mutant is made in a scratch copy, built with the checker and given to the quick checks, cheap ones
first, until one of them reports it. Survivors are equivalent mutants or blind spots: look at them.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, threading, queue, time
V = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("--workers", type=int, default=2)
ap.add_argument("--file", action="append"); ap.add_argument("--every", type=int, default=1); ap.add_argument("--offset", type=int, default=0)
ap.add_argument("--list", action="store_true"); ap.add_argument("--checks"); ap.add_argument("--only")
a = ap.parse_args()
ORDER = (a.checks.split(",") if a.checks else
         "C01 C03 C05 C14 C18 C15 C06 C09 C12 C20 C11 C07 C13 C10 C19 C02 C04 C08 C16 C17".split())
FIRST = {"reader.rs": "C01 C03 C05 C06 C09".split(), "actix_web.rs": "C14 C18".split(), "filesystem_entry.rs": "C13 C17 C12".split(), "bytes.rs": ["C15"], "builder.rs": "C01 C20 C12 C11".split(), "crc_reader.rs": ["C05", "C08"], "entry_data.rs": ["C01", "C16"], "structs.rs": ["C01", "C20"]}
FILES = a.file or ["reader.rs", "builder.rs", "actix_web.rs", "bytes.rs", "crc_reader.rs", "entry_data.rs", "filesystem_entry.rs", "structs.rs"]

def code_part(text):
    m = re.search(r"^#\[cfg\(test\)\]\n(pub )?mod ", text, re.M)
    return len(text) if not m else m.start()

SUBS = [(r"<=", ["<"]), (r">=", [">"]), (r"(?<![-=<:&|])(?<=\s)<(?=\s)", ["<="]), (r"(?<=\s)>(?=\s)", [">="]), (r"==", ["!="]), (r"!=", ["=="]),
        (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"&&", ["||"]), (r"\|\|(?=\s)", ["&&"]), (r"(?<=\) )&(?= \()", ["|"]),
        (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bis_some\(\)", ["is_none()"]), (r"\bis_none\(\)", ["is_some()"]), (r"\.is_empty\(\)", [".len() == 1"]),
        (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"(?<=[\s(])!(?=[a-z])", [""]), (r"\bsaturating_add\b", ["wrapping_add"]), (r"\bsaturating_sub\b", ["wrapping_sub"]),
        (r"(?<![\w.\"])(\d+)(?![\w.\"]|\.\.)", ["N+1", "N-1"]), (r"0x([0-9a-fA-F_]+)", ["HEX"]), (r"\.rev\(\)", [""]), (r"\bSome\((\w+)\)(?=[,;\n])", ["None"]), (r"\bis_ok\(\)", ["is_err()"]), (r"\bis_err\(\)", ["is_ok()"]),
        (r"SeekFrom::Start", ["SeekFrom::Current"]), (r"\.trim_end_matches\([^)]*\)", [""]), (r"u32::MAX|u16::MAX|u64::MAX", ["0"])]

def mutants(path):
    text = open(path).read(); end = code_part(text); out = []
    pos = 0; skip = False
    lines = text[:end].split("\n")
    off = 0; hook = 0
    for no, l in enumerate(lines, 1):
        s = l.strip(); start = off; off += len(l) + 1
        if "zippity_verif" in l: hook = 1
        if hook:
            if l.startswith("}"): hook = 0
            continue
        if not s or s.startswith(("//", "#[", "use ", "#!", "mod ", "pub mod", "pub use")): continue
        code = l.split(" // ")[0]
        for rx, reps in SUBS:
            for m in re.finditer(rx, code):
                # not in strings
                if code[: m.start()].count('"') % 2: continue
                for rep in reps:
                    r = rep
                    if rep == "N+1": r = str(int(m.group(1)) + 1)
                    if rep == "N-1":
                        if int(m.group(1)) == 0: continue
                        r = str(int(m.group(1)) - 1)
                    if rep == "HEX": r = hex(int(m.group(1).replace("_", ""), 16) ^ 1)
                    if rep.startswith("None") and "=>" in code[:m.end()] and "Some(" in code.split("=>")[0] and m.start() < code.index("=>"): continue
                    out.append((no, start + m.start(), start + m.end(), r))
    # statements removed
    depth = 0; body = text[:end]
    for m in re.finditer(r"^([ \t]+)(?!let |use |return |//|#|\}|pub |fn |\.|\)|type |const |break|continue)([a-zA-Z_*(][^\n]*)$", body, re.M):
        # a statement: begins after ; { } at end of the previous line
        prev = body[: m.start()].rstrip()
        pl = prev.split("\n")[-1].strip()
        if not (pl.endswith((";", "{", "}")) or pl.startswith("//")): continue
        i = m.start(2); d = 0; j = i
        while j < end:
            c = body[j]
            if c in "([{": d += 1
            if c in ")]}":
                d -= 1
                if d < 0: j = None; break
                if d == 0 and c == "}" and re.match(r"(if|for|while|match|loop)\b", body[i:]) and not re.match(r"\s*(else|\.|;|\))", body[j + 1 :]): j += 1; break
            if c == ";" and d == 0: j += 1; break
            j += 1
        if j is None: continue
        st = body[i:j]
        if "zippity_verif" in st or len(st) > 900 or not st.endswith((";", "}")): continue
        if re.match(r"\w+:\s", st) or "=>" in st.split("\n")[0] and not st.startswith("match"): continue
        out.append((body[:i].count("\n") + 1, i, j, "{}" if st.endswith("}") else ";"))
    # guards: if cond -> if true / false
    for m in re.finditer(r"\bif (?!let )([^{}\n]+) \{", body):
        if any(x in body[max(0, m.start() - 200) : m.start()].split("\n")[-1] for x in ("//",)): continue
        for v in ("true", "false"): out.append((body[: m.start()].count("\n") + 1, m.start(1), m.end(1), v))
    # ? on its own statements: error swallowed
    for m in re.finditer(r"\)\?;", body):
        ln = body[: m.start()].count("\n") + 1
        if lines[ln - 1].strip().startswith(("let", "//")): continue
    return text, sorted(set(out))

allm = []; TEXT = {}
for f in FILES:
    p = f"/repo/src/{f}"
    text, ms = mutants(p)
    TEXT[f] = text
    for m in ms: allm.append((f, *m))
allm = allm[a.offset :: a.every]
if a.only:
    allm = [m for m in allm if f"{m[0]}:{m[1]}" in a.only.split(",")]
if a.list:
    for f, no, i, j, r in allm: print(f, no, repr(open(f"/repo/src/{f}").read()[i:j][:60]), "->", r)
    print(len(allm)); sys.exit()
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        d = json.loads(l); done.add((d["file"], d["i"], d["j"], d["r"]))
q = queue.Queue()
for m in allm:
    if (m[0], m[2], m[3], m[4]) not in done: q.put(m)
print(q.qsize(), "mutants", flush=True)
lock = threading.Lock(); ncpu = os.cpu_count(); per = ncpu // a.workers
out = open(a.out, "a")
def worker(k):
    base = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    cpus = f"{k*per}-{k*per+per-1}"
    subprocess.check_call(["cp", "-a", "/repo", base + "/repo"])
    shutil.rmtree(base + "/repo/target", ignore_errors=True)
    shutil.copytree(V + "/mc", base + "/mc")
    t = open(base + "/mc/Cargo.toml").read().replace('"/repo"', f'"{base}/repo"'); open(base + "/mc/Cargo.toml", "w").write(t)
    os.makedirs(base + "/v")
    env = dict(os.environ, RUSTFLAGS="--cfg zippity_verif", CARGO_TARGET_DIR=base + "/target", VERIF_DIR=base + "/v", VERIF_SEED="1")
    for x in ("replays", "evidence"): os.makedirs(base + "/v/" + x, exist_ok=True)
    shutil.copy(V + "/known_findings.json", base + "/v/")
    try:
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            f, no, i, j, r = m
            src = TEXT[f]
            open(f"{base}/repo/src/{f}", "w").write(src[:i] + r + src[j:])
            t0 = time.time()
            b = subprocess.run(["taskset", "-c", cpus, "cargo", "build", "--release", "--offline"], cwd=base + "/mc", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res = None
            if b.returncode: res = "nobuild"
            else:
                order = FIRST.get(f, []) + [c for c in ORDER if c not in FIRST.get(f, [])]
                for c in order:
                    try:
                        p = subprocess.run(["taskset", "-c", cpus, base + "/target/release/mc", c, "quick"], cwd=base, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                    except subprocess.TimeoutExpired:
                        res = "timeout " + c; break
                    if p.returncode:
                        res = c if "VIOLATION" in p.stdout or p.returncode < 0 else f"{c} rc {p.returncode}"
                        break
                else: res = "SURVIVED"
            open(f"{base}/repo/src/{f}", "w").write(src)
            with lock:
                out.write(json.dumps(dict(file=f, line=no, i=i, j=j, old=src[i:j], r=r, result=res, secs=round(time.time() - t0, 1))) + "\n"); out.flush()
                if res == "SURVIVED" or " " in res: print(f"{f}:{no} {src[i:j][:70]!r} -> {r!r}: {res}\n    {src.splitlines()[no-1].strip()}", flush=True)
    finally:
        shutil.rmtree(base)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.workers)]
[t.start() for t in ts]; [t.join() for t in ts]
