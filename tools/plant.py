#!/usr/bin/env python3
"""Writes the planted bugs of bugs.py to /verif/seeded and confirms them.
plant.py make ID...   write seeded/ID and confirm it in a scratch copy (tests pass, demo 0 / nonzero)
plant.py try ID...    apply the patch to /repo, run --survey (or check.py of its property with -c), undo"""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
SEED = os.path.join(os.path.dirname(HERE), "seeded"); SCR = "/tmp/plant/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.77.2", CARGO_NET_OFFLINE="true")

def sh(c, cwd, **k): return subprocess.run(c, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(c, str), **k)
def scratch():
    if not os.path.isdir(SCR):
        os.makedirs("/tmp/plant", exist_ok=True); subprocess.check_call(["cp", "-a", "/repo", SCR])
    sh("git checkout -q -- . && git clean -fdq", SCR)

def make(b):
    d = os.path.join(SEED, b["id"]); os.makedirs(d, exist_ok=True)
    for f in ("kit.rs", "wire.rs", "Cargo.lock", "demo.sh"): shutil.copy(os.path.join(HERE, "kit", f), d)
    p = os.path.join(d, "demo.sh"); s = open(p).read()
    if b["features"] is not None: s = s.replace('features = ["bin", "cbor", "json"]', 'default-features = false, features = [%s]' % b["features"])
    if b["profile"]: s = s.replace('bincode = "1.2.0"\nT', 'bincode = "1.2.0"\n\n' + b["profile"] + "T")
    open(p, "w").write(s); os.chmod(p, 0o755)
    with open(os.path.join(d, "main.rs"), "w") as f: f.write(("#[allow(dead_code)]\nmod wire;\nmod kit;\n#[allow(unused_imports)]\nuse kit::*;\n" if b["kit"] else "") + b["demo"])
    for f in () if b["kit"] else ("kit.rs", "wire.rs"): os.remove(os.path.join(d, f))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    scratch()
    r0 = sh(["bash", os.path.join(d, "demo.sh")], SCR)
    mine = {l.split()[0][:8] for l in sh("git log --format=%H 72599c1..HEAD", SCR).stdout.split()}
    touched = False
    for fn, old, new in b["edits"]:
        p = os.path.join(SCR, fn); s = open(p).read()
        if s.count(old) != 1: print(b["id"], "edit matches", s.count(old), "times:", old); return False
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", SCR).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    # original lines removed?
    orig = 0; cur = None
    for l in sh("git diff -U0", SCR).stdout.splitlines():
        if l.startswith("+++ b/"): cur = l[6:]
        if l.startswith("@@"):
            a = l.split()[1][1:].split(","); st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            if n:
                bl = sh("git blame -s -L %d,+%d HEAD -- %s" % (st, n, cur), SCR).stdout
                orig += sum(1 for x in bl.splitlines() if x.split()[0].lstrip("^")[:7] == "72599c1"[:7])
    t = sh("cargo test --workspace --all-features --no-fail-fast --locked --offline -- --include-ignored --test-threads 8", SCR)
    r1 = sh(["bash", os.path.join(d, "demo.sh")], SCR)
    ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0 and orig > 0
    print(b["id"], b["property"], "OK" if ok else "BAD", "demo", r0.returncode, r1.returncode, r1.stdout.strip().splitlines()[-1:], "tests", t.returncode, "orig lines", orig, flush=True)
    if r0.returncode: print(r0.stdout[-1500:])
    if r1.returncode == 3: print(r1.stdout[-1500:])
    if t.returncode: print("\n".join(l for l in t.stdout.splitlines() if "FAILED" in l or l.startswith("error"))[:1500])
    scratch()
    return ok

def tryit(i, full):
    p = os.path.join(SEED, i, "patch.diff"); m = json.load(open(os.path.join(SEED, i, "meta.json")))
    subprocess.check_call(["git", "-C", "/repo", "apply", p])
    try:
        t = time.time()
        r = sh(["python3", "check.py"] + ([m["property"]] if full else ["--survey"]), os.path.dirname(HERE))
        out = r.stdout.splitlines()
        hit = any(l.startswith("VIOLATION property=%s " % m["property"]) for l in out) if full else any(l.startswith(m["property"] + " ") for l in out)
        print("%-6s %s %s rc=%d %.0fs" % (i, m["property"], "CAUGHT" if hit else "MISSED", r.returncode, time.time() - t))
        for l in out:
            if not l.startswith("obligations"): print("      ", l[:230])
        sys.stdout.flush()
        return hit
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])

if __name__ == "__main__":
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("-")]
    if cmd == "make":
        from bugs import BUGS
        for b in BUGS:
            if not ids or b["id"] in ids: make(b)
    else:
        for i in ids or sorted(os.listdir(SEED)): tryit(i, "-c" in sys.argv)
