"""Runs a check: builds the driver against /repo, generates scenarios, executes them on the real crate,
validates the recorded executions against spec/PkstlTrace.tla with TLC, reports."""
import concurrent.futures, fcntl, glob, hashlib, json, os, random, resource, subprocess, sys, threading, time, collections
from . import base as b, fam, model

ROOT = model.ROOT
WORK = model.WORK
TARGET = os.path.join(ROOT, "target")
REPO = os.environ.get("PKSTL_REPO", "/repo")
CORES = os.cpu_count() or 4
PROPS = ["C%02d" % i for i in range(1, 28)]
ToolError = model.ToolError

# ---------------------------------------------------------------- build

def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, "src"), os.path.join(ROOT, "driver", "src")):
        for d, _, fs in os.walk(base):
            files += [os.path.join(d, f) for f in fs]
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        files.append(os.path.join(REPO, f))
    for f in ("Cargo.toml", "Cargo.lock"):
        files.append(os.path.join(ROOT, "driver", f))
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode()); h.update(b"\0"); h.update(open(f, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:24]

def build():
    """the driver, linked with the crate of /repo's working tree; rebuilt whenever a content changed"""
    os.makedirs(TARGET, exist_ok=True); os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        binp = os.path.join(TARGET, "bin-" + h)
        if os.path.exists(binp): return binp
        env = dict(os.environ, RUSTUP_TOOLCHAIN="1.77.2", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET)
        env["RUSTFLAGS"] = "--cap-lints=warn"   # a lint is not behaviour
        cwd = os.path.join(ROOT, "driver")
        # cargo decides by modification times: contents decide here
        subprocess.run(["cargo", "clean", "--offline", "-p", "pkstl", "-p", "pkstl-driver"], cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        p = subprocess.run(["cargo", "build", "--offline"], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
        if p.returncode != 0:
            raise ToolError("the driver does not build:\n" + p.stdout.decode("utf-8", "replace")[-4000:])
        for old in glob.glob(os.path.join(TARGET, "bin-*")):
            os.remove(old)
        os.link(os.path.join(TARGET, "debug", "pkstl-driver"), binp)
        return binp

# the other ways to compile the crate, with every other set of features: the driver's features, and the formats the crate then knows
VARIANTS = {"none": ([], []), "zip": (["zip"], []), "ser": (["ser"], [0, 1]), "json": (["json"], [0, 1, 2]), "cbor": (["cbor"], [0, 1, 3]),
            "bin": (["bin"], [0, 1, 4]), "json-cbor": (["json", "cbor"], [0, 1, 2, 3]), "json-bin": (["json", "bin"], [0, 1, 2, 4]),
            "cbor-bin": (["cbor", "bin"], [0, 1, 3, 4]),
            # every feature, compiled as for a release: optimized, neither debug assertions nor overflow checks
            "release": (["json", "cbor", "bin"], [0, 1, 2, 3, 4])}

RELEASE = [x for k in ("debug-assertions=false", "overflow-checks=false", "opt-level=3") for x in ("--config", "profile.dev.package.pkstl." + k)]

def build_variants(names=tuple(VARIANTS)):
    """the driver with each of the other sets of features: name -> path, or name -> (reason why it does not build,)"""
    build()
    with open(os.path.join(WORK, "build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        def one(n):
            binp = os.path.join(TARGET, "vbin-%s-%s" % (n, h))
            if os.path.exists(binp): return binp
            t = os.path.join(TARGET, "v-" + n)
            subprocess.run(["rm", "-rf", t]); os.makedirs(t)
            # the compiled dependencies are shared
            subprocess.check_call(["cp", "-al", os.path.join(TARGET, "debug"), os.path.join(t, "debug")])
            subprocess.check_call(["rm", "-rf", os.path.join(t, "debug", ".fingerprint")])
            subprocess.check_call(["cp", "-a", os.path.join(TARGET, "debug", ".fingerprint"), os.path.join(t, "debug", ".fingerprint")])
            env = dict(os.environ, RUSTUP_TOOLCHAIN="1.77.2", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=t)
            env["RUSTFLAGS"] = "--cap-lints=warn"   # a lint is not behaviour
            p = subprocess.run(["cargo", "build", "--offline", "-j", "2", "--no-default-features", "--features", " ".join(VARIANTS[n][0])] + (RELEASE if n == "release" else []), cwd=os.path.join(ROOT, "driver"), env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if p.returncode != 0: return (p.stdout.decode("utf-8", "replace")[-3000:],)
            for old in glob.glob(os.path.join(TARGET, "vbin-%s-*" % n)):
                if len(os.path.basename(old)) == len(os.path.basename(binp)): os.remove(old)
            os.rename(os.path.join(t, "debug", "pkstl-driver"), binp)
            subprocess.run(["rm", "-rf", t])
            return binp
        with concurrent.futures.ThreadPoolExecutor(5) as ex:
            return dict(zip(names, ex.map(one, names)))

# ---------------------------------------------------------------- execution

def execute_all(binp, scns, seed, wd):
    """runs every scenario with the build it is meant for; also returns the sets of features that do not build"""
    groups = collections.OrderedDict()
    for s in scns: groups.setdefault(s.get("var"), []).append(s)
    paths, lost, broken = [], [], {}
    vb = build_variants([g for g in groups if g]) if any(groups) else {}
    for g, ss in groups.items():
        b_ = vb[g] if g else binp
        if isinstance(b_, tuple): broken[g] = b_[0]; continue
        d = os.path.join(wd, g or "full"); os.makedirs(d)
        tp, l = execute(b_, ss, seed, d)
        paths.append(tp); lost += l
    tp = os.path.join(wd, "all.ndjson")
    with open(tp, "w") as f:
        for p in paths:
            with open(p) as g: f.write(g.read())
            os.remove(p)
    return tp, lost, broken

def execute(binp, scns, seed, wd, jobs=CORES):
    """runs the scenarios in `jobs` processes; returns (path of the traces, [(scenario, how it ended)]).
    A scenario that ends its process (abort, exhausted stack or memory, endless loop) is recorded, and the
    process is started again behind it."""
    jobs = max(1, min(jobs, len(scns)))
    lost, errs, lock = [], [], threading.Lock()
    parts = [scns[k::jobs] for k in range(jobs)]
    def work(k):
        todo = list(parts[k]); n = 0
        while todo and not errs:
            n += 1
            base = os.path.join(wd, "x%d.%d" % (k, n))
            with open(base + ".s", "w") as f:
                for s in todo: f.write(json.dumps(s) + "\n")
            try:
                p = subprocess.run([binp, base + ".s", base + ".t", str(seed), base + ".i"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800,
                                   preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30)))
            except subprocess.TimeoutExpired:
                with lock: errs.append("driver timeout")
                return
            os.remove(base + ".s")
            if p.returncode == 0: return
            if p.returncode == 98:
                with lock: errs.append("the driver failed:\n" + p.stdout.decode("utf-8", "replace")[-2000:])
                return
            i = int(open(base + ".i").read())
            with lock:
                lost.append((todo[i], "does not end" if p.returncode == 97 else "the process ended with %s" % p.returncode))
                if len(lost) >= 40: return
            todo = todo[i + 1:]
    th = [threading.Thread(target=work, args=(k,)) for k in range(jobs)]
    for t in th: t.start()
    for t in th: t.join()
    if errs: raise ToolError(errs[0])
    order = {s["id"]: n for n, s in enumerate(scns)}
    got = []
    for f in glob.glob(os.path.join(wd, "x*.t")):
        with open(f) as g:
            for l in g:
                if l.endswith("\n"): got.append((order[l[l.rindex('"id":"') + 6:l.rindex('"')]], l))
        os.remove(f)
    got.sort()
    tp = os.path.join(wd, "tr.ndjson")
    with open(tp, "w") as f: f.writelines(l for _, l in got)
    return tp, lost

def validate(tp, wd, shard=40000, par=CORES):
    """TLC on the recorded executions, one worker per process (TLC normalizes the records of constants lazily, which two
    workers of a process must not do at once); returns reports, and (events, traces, states)"""
    lines, n = [], 0
    with open(tp) as f:
        for l in f:
            c = l.count('"op":'); n += c
            lines.append((c, l))
    ntr = len(lines)
    k = max(1, min(par, n // 500)) * max(1, -(-n // (shard * par)))
    shards, cost = [[] for _ in range(k)], [0] * k
    for c, l in lines:
        j = cost.index(min(cost)); shards[j].append(l); cost[j] += c + 5
    shards = [s for s in shards if s]
    par = min(par, len(shards)) or 1
    reports, errs, states = [], [], [0]
    lock = threading.Lock()
    def work(k):
        while True:
            with lock:
                if not queue or errs: return
                j, sh = queue.pop()
            path = os.path.join(wd, "shard-%d.ndjson" % j)
            with open(path, "w") as f: f.writelines(sh)
            try:
                rc, out = model.tlc("PkstlTrace.tla", "PkstlTrace.cfg", env={"TRACES": path}, workers=1, mem="3g")
            except Exception as e:
                with lock: errs.append(str(e))
                return
            got = list(model.printed(out))
            with lock:
                if rc != 0 or len(got) != len(sh):
                    errs.append("trace validation ended with %s after %d of %d traces:\n%s" % (rc, len(got), len(sh), "\n".join(l for l in out.splitlines() if not l.startswith('"{'))[-3000:]))
                reports.extend(got)
                states[0] += model.stats(out)[1]
            os.remove(path)
    queue = list(enumerate(shards))[::-1]
    th = [threading.Thread(target=work, args=(k,)) for k in range(par)]
    for t in th: t.start()
    for t in th: t.join()
    if errs: raise ToolError(errs[0])
    return reports, (n, ntr, states[0])

# ---------------------------------------------------------------- findings

def known_findings():
    with open(os.path.join(ROOT, "known_findings.json")) as f: return json.load(f)["findings"]

def workdir(tag):
    d = os.path.join(WORK, "run", "%s-%d" % (tag, os.getpid()))
    subprocess.run(["rm", "-rf", d]); os.makedirs(d)
    return d
