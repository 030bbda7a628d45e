"""Scenarios from the state graphs of the models: TLC prints every edge, walks are built that cover them."""
import json, os, subprocess, hashlib, random, collections
from . import base as b

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, "work")

def spec_hash(*names):
    h = hashlib.sha256()
    for n in names:
        h.update(open(os.path.join(SPEC, n), "rb").read())
    return h.hexdigest()[:16]

class ToolError(Exception):
    pass

def tlc(module, cfg, env=None, workers=4, extra=(), timeout=800, xss="64m", mem="6g"):
    """runs TLC; returns its output; raises ToolError when it does not end regularly"""
    md = os.path.join(WORK, "md", "%s-%d-%d" % (cfg, os.getpid(), random.randrange(1 << 30)))
    os.makedirs(md, exist_ok=True)
    cmd = ["java", "-Xmx" + mem, "-Xss" + xss, "-XX:+UseParallelGC", "-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
           "tlc2.TLC", "-config", cfg, "-metadir", md, "-workers", str(workers), "-noGenerateSpecTE"] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC %s: timeout" % cfg)
    finally:
        subprocess.run(["rm", "-rf", md])
    out = p.stdout.decode("utf-8", "replace")
    return p.returncode, out

def printed(out):
    for l in out.splitlines():
        if l.startswith('"{') or l.startswith('"['):
            yield json.loads(json.loads(l))

def stats(out):
    gen = dist = 0
    for l in out.splitlines():
        if "states generated" in l and "distinct" in l:
            w = l.replace(",", "").split()
            try:
                gen, dist = int(w[0]), int(w[3])
            except ValueError:
                pass
    return gen, dist

def edges(cfg, module="PkstlOne.tla", deps=("PkstlOne.tla", "PkstlLayer.tla", "PkstlWire.tla", "PkstlRuns.tla")):
    """edges of the state graph, cached by the content of the specification"""
    key = spec_hash(cfg, *deps)
    d = os.path.join(WORK, "edges"); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (cfg, key))
    if os.path.exists(path):
        with open(path) as f: return json.load(f)
    rc, out = tlc(module, cfg, workers=1)
    if rc != 0:
        raise ToolError("TLC %s failed:\n%s" % (cfg, out[-3000:]))
    ids, es, seen, cls = {}, [], set(), {}
    def nid(x):
        return ids.setdefault(json.dumps(x), len(ids))
    init = None
    for e in printed(out):
        s = nid([e["s"], e["c"]]) if "c" in e else nid(e["s"])
        # the class of a target is not printed: states are identified by their fingerprint
        k = json.dumps([e["s"], e["t"], e["op"]], sort_keys=True)
        if k in seen: continue
        seen.add(k)
        es.append([e["s"], json.dumps(e["op"], sort_keys=True), e["t"], e.get("c"), e["d"]])
    gen, dist = stats(out)
    # intern
    names, ops = {}, {}
    r = []
    for s, o, t, c, d_ in es:
        r.append([names.setdefault(s, len(names)), ops.setdefault(o, len(ops)), names.setdefault(t, len(names)), c, d_])
    res = {"edges": r, "ops": [json.loads(o) for o in ops], "n": len(names), "generated": gen, "distinct": dist}
    tmp = path + ".%d" % os.getpid()
    with open(tmp, "w") as f: json.dump(res, f)
    os.replace(tmp, path)
    return res

def walks(g, prefix, prefix_id, quick, seed, limit, per_key=1, cover="class"):
    """edge-covering walks. cover="class": one edge per (class of the source, operation); "edge": every edge."""
    E = g["edges"]; ops = g["ops"]
    rnd = random.Random(seed)
    succ = collections.defaultdict(list)
    cls = {}
    for idx, (s, o, t, c, d) in enumerate(E):
        succ[s].append(idx)
        cls[s] = json.dumps(c)
    targets = set(e[2] for e in E)
    tree = {}
    roots = [s for s in succ if s not in set(e[2] for e in E if e[2] != e[0])]
    q = collections.deque(roots)
    for r in roots: tree[r] = None
    while q:
        s = q.popleft()
        for idx in succ.get(s, ()):
            t = E[idx][2]
            if t not in tree:
                tree[t] = idx; q.append(t)
    def path(s):
        p = []
        while tree.get(s) is not None:
            p.append(tree[s]); s = E[tree[s]][0]
        p.reverse(); return s, p
    # what must be covered
    def key(idx):
        s, o, t, c, d = E[idx]
        return idx if cover == "edge" else (cls[s], o, s == t, d)
    need = collections.Counter()
    for idx in range(len(E)): need[key(idx)] = min(per_key, need[key(idx)] + 1)
    order = list(range(len(E))); rnd.shuffle(order)
    out = []
    def take(idx):
        if need[key(idx)] > 0: need[key(idx)] -= 1
    def wanted(idx): return need[key(idx)] > 0
    for idx in order:
        if len(out) >= limit: break
        if not wanted(idx): continue
        s, o, t, c, d = E[idx]
        if s not in tree: continue
        root, p = path(s)
        w = list(p)
        def selfs(x):
            for j in succ.get(x, ()):
                if E[j][2] == x and (wanted(j)):
                    w.append(j); take(j)
        for j in p: take(j)
        selfs(s)
        if s != t or wanted(idx):
            w.append(idx); take(idx)
        cur = t; steps = 0
        while E[w[-1]][4] != "F" and steps < 12:
            selfs(cur)
            nxt = [j for j in succ.get(cur, ()) if E[j][2] != cur and wanted(j)]
            safe = [j for j in nxt if E[j][4] != "F"]
            if safe: j = rnd.choice(safe)
            elif nxt: j = rnd.choice(nxt)
            else: break
            w.append(j); take(j); cur = E[j][2]; steps += 1
        out.append((root, w, E[w[-1]][4]))
    left = sum(1 for v in need.values() if v > 0)
    return out, left

def one(cfg, quick, seed, limit, cover="class", per_key=1):
    g = edges(cfg)
    ws, left = walks(g, None, None, quick, seed, limit, per_key, cover)
    E, ops = g["edges"], g["ops"]
    scns = []
    tag = cfg.replace("PkstlOne", "").replace(".cfg", "").lower()
    for i, (root, w, end) in enumerate(ws):
        c = E[w[0]][3]
        md, pin = ("full" if c[0] else "min"), (c[1] if tag != "window" else (2 if i % 2 else 0))
        seq = b.ready(md, pin=pin, order=b.NEGO_ORDERS[i % 6]) if tag == "window" else [b.new("A", 1, pin, md)]
        h = "A"
        k = 0
        handles = ["A"]
        for j in w:
            o = dict(ops[E[j][1]]); o.pop("r", None)
            if o["op"] == "cl":
                k += 1
                sw = o.pop("sw", False)
                o["to"] = "K%d" % k
                o["h"] = h
                seq.append(o)
                if sw: h = o["to"]; handles.append(h)
                continue
            o["h"] = h
            if o["op"] == "cfg": o["cfg"] = {"lv": i % 10, "ms": 100 * (i % 5)}
            seq.append(o)
        for q in handles[::-1]:
            tail = b.probes(md, q, to=q + "p") if end == "F" and q == handles[-1] else b.complete(md, q)
            # messages are sealed for the original layer's key
            for o in tail:
                m = o.get("m", {})
                if "k" in m: m["k"] = [m["k"][0], "of:A"]
                if m.get("t") == "A": m["ch"] = "of:A"
            seq += tail
        scns.append(b.S("one-%s-%d" % (tag, i), seq, twin=True))
    return scns, {"model": cfg, "states": g["distinct"], "edges": len(E), "uncovered_goals": left}


# ---------------------------------------------------------------- several layers (PkstlNet)

NETDEPS = ("PkstlNet.tla", "PkstlLayer.tla", "PkstlWire.tla", "PkstlRuns.tla")
NETCONF = {}

def netconf(cfg):
    """identities, expectations and layer kind of a configuration (read from the files TLC reads)"""
    spec = open(os.path.join(SPEC, "PkstlNet.tla")).read()
    val = {}
    for l in spec.splitlines():
        w = l.split(" == ")
        if len(w) == 2 and w[1].startswith("<<") and w[1].endswith(">>") and w[1][2:-2].replace(",", "").replace(" ", "").isdigit():
            val[w[0]] = [int(x) for x in w[1][2:-2].split(",")]
    r = {}
    for l in open(os.path.join(SPEC, cfg)):
        w = l.split()
        if len(w) == 3 and w[1] == "<-": r[w[0]] = val[w[2]]
        elif len(w) == 3 and w[1] == "=": r[w[0]] = w[2]
    return r

def net_walks(cfg, num, seed):
    """random behaviours of the network model"""
    key = spec_hash(cfg, *NETDEPS)
    d = os.path.join(WORK, "edges"); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d-%d.json" % (cfg, key, num, seed))
    if os.path.exists(path):
        with open(path) as f: return json.load(f)
    rc, out = tlc("PkstlNet.tla", cfg, workers=1, extra=["-simulate", "num=%d" % num, "-depth", "60", "-seed", str(seed)], timeout=1500)
    if rc != 0: raise ToolError("TLC %s failed:\n%s" % (cfg, out[-3000:]))
    # the last step is tried with every successor: one is kept
    r, last = [], None
    for e in printed(out):
        k = json.dumps(e["w"][:-1], sort_keys=True)
        if k == last: r[-1].append(e["w"])
        else: r.append([e["w"]]); last = k
    rnd = random.Random(seed)
    r = [rnd.choice(x)[1:] for x in r]
    if not r: raise ToolError("TLC %s produced no walk" % cfg)
    tmp = path + ".%d" % os.getpid()
    with open(tmp, "w") as f: json.dump(r, f)
    os.replace(tmp, path)
    return r

def net_scenario(id, c, steps, rnd):
    who, exp, md = c["Who"], c["Expect"], "full" if c["Md"] == "1" else "min"
    H = range(1, len(who) + 1)
    seq = [b.new(str(q), who[q - 1], exp[q - 1], md) for q in H]
    seq += [dict(o) for o in steps]
    # not what the known findings are about: own messages, and those of a handle whose key the attacker presents as its own
    bound = {(o["h"], o["m"]["ep"][3:]) for o in seq if o["op"] == "rd" and o["m"].get("t") == "C" and o["m"]["ep"].startswith("of:")}
    held = {str(q) for q in H if any(o["op"] == "rd" and o["h"] == str(q) and o["m"].get("w", "x")[0] == "u" and (str(q), o["m"]["w"][1:].split("_")[0]) in bound for o in seq)}
    # afterwards everybody tries to complete with its partner and to exchange data, then everything written is replayed
    done = {o["o"] for o in seq if "o" in o}
    pa = lambda q: q + 1 if q % 2 else q - 1
    for rnd_ in (0, 1):
        for q in H:
            p = pa(q)
            if p not in H: p = 2
            s, t = str(q), str(p)
            if rnd_ == 0:
                if "c" + s not in done: seq.append(b.con(s, 100 + q, "c" + s))
                if p == q: continue
                if "c" + t not in done: seq.append(b.con(t, 100 + p, "c" + t)); done.add("c" + t)
                done.add("c" + s)
                seq.append(b.rd(b.W("c" + t), s))
                if "a" + s not in done: seq.append(b.ack(s, 200 + q, "a" + s)); done.add("a" + s)
            else:
                if md == "min": seq.append(b.tk(s))
                seq.append(b.rd(b.W("a" + t), s))
                if md == "min" and s not in held: seq.append(b.dr(s))
                seq.append(b.wr(s, 5000 + q, "v" + s))
    us = sorted({o["o"] for o in seq if o.get("o", "x")[0] in "uv"})
    for u in us:
        w = u[1:].split("_")[0]
        for q in H:
            if w != str(q) and (str(q), w) not in bound: seq.append(b.rd(b.W(u), str(q)))
    return dict(b.S(id, seq), solo=1)

def net(cfg, quick, seed):
    c = netconf(cfg)
    tag = cfg.replace("PkstlNet", "").replace(".cfg", "").lower()
    rnd = random.Random("%s/%d" % (cfg, seed))
    info = {"model": cfg}
    if c["Emit"] == '"walks"':
        ws = net_walks(cfg, (30 if len(c["Who"]) == 3 else 60) if quick else 1500, seed)
        info["walks"] = len(ws)
    else:
        g = edges(cfg, "PkstlNet.tla", NETDEPS)
        w, left = walks(g, None, None, quick, seed, 10 ** 9, 1, "class" if quick and g["n"] > 300 else "edge")
        ws = [[g["ops"][g["edges"][j][1]] for j in x[1]] for x in w]
        info.update({"states": g["distinct"], "edges": len(g["edges"]), "uncovered_goals": left})
    info["executed"] = len(ws)
    return [net_scenario("net-%s-%d" % (tag, i), c, x, rnd) for i, x in enumerate(ws)], info

# ---------------------------------------------------------------- writers (PkstlSink)

def sinks(cfg, quick, seed):
    key = spec_hash(cfg, "PkstlSink.tla")
    d = os.path.join(WORK, "edges"); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (cfg, key))
    if os.path.exists(path):
        with open(path) as f: g = json.load(f)
    else:
        rc, out = tlc("PkstlSink.tla", cfg, workers=1)
        if rc != 0: raise ToolError("TLC %s failed:\n%s" % (cfg, out[-3000:]))
        g = {"cases": sorted(printed(out), key=lambda x: json.dumps(x, sort_keys=True)), "distinct": stats(out)[1]}
        tmp = path + ".%d" % os.getpid()
        with open(tmp, "w") as f: json.dump(g, f)
        os.replace(tmp, path)
    rnd = random.Random("%s/%d" % (cfg, seed))
    cases = g["cases"]
    if quick: cases = rnd.sample(cases, 260)
    enc = {1: 1, 2: -5, 3: -6, 4: -7}
    out = []
    for i, c in enumerate(cases):
        sk = {"cap": c["cap"], "pre": c["pre"], "script": [enc.get(a, a) for a in c["script"]]}
        d = {"c": 97100, "len": 7000, "kind": "rand"} if c["big"] else rnd.choice([1, 17, 18, {"c": 97101, "len": 40, "kind": "rand"}])
        md = rnd.choice(["min", "full", "full"])
        k = rnd.choice("oi") if c["sig"] else rnd.choice("UUc")
        if k == "o": ops = [b.new(md="full", pin=rnd.choice([0, 2])), b.con(d=d, sink=sk), b.con(d=9401), b.rd(b.C()), b.ack(d=9402), b.ack(d=9403), b.rd(b.A()), b.wr(d=9404), b.rd(b.U(0))]
        elif k == "i": ops = [b.new(md="full"), b.con(), b.rd(b.C()), b.ack(d=d, sink=sk), b.ack(d=9402), b.con(d=9401), b.rd(b.U(1)), b.rd(b.A()), b.wr(d=9404), b.rd(b.U(0)), b.cl()]
        elif k == "U": ops = b.ready(md) + [b.wr(d=9406), b.wr(d=d, sink=sk), b.wr(d=9407), b.rd(b.U(0)), b.cl(), b.con(), b.ack(), b.cfg({"lv": 3})]
        else: ops = b.ready(md) + [b.cl(), b.wr("A2", d, sink=sk), b.wr("A2", 9407), b.wr(d=9409), b.rd(b.U(0), "A2"), b.rd(b.U(0))]
        out.append(b.S("snk-%d" % i, ops))
    return out, {"model": cfg, "states": g["distinct"], "cases": len(g["cases"]), "executed": len(out)}

def design(cfg, thorough):
    """checks a design model; its invariants and properties must hold"""
    module = next(m for m in ("PkstlNet", "PkstlChan", "PkstlWindow", "PkstlSink", "PkstlOne", "PkstlLife") if cfg.startswith(m)) + ".tla"
    # one worker: TLC normalizes the records of constants lazily, which two workers must not do at once. The large
    # models have several; what they report is checked again with one
    many = thorough and module in ("PkstlNet.tla", "PkstlChan.tla")
    rc, out = tlc(module, cfg, workers=4 if many else 1, timeout=4 * 3600 if thorough else 800)
    if rc != 0 and many: rc, out = tlc(module, cfg, workers=1, timeout=4 * 3600)
    if rc != 0: raise ToolError("the specification does not satisfy its properties (%s):\n%s" % (cfg, out[-4000:]))
    g, d = stats(out)
    return {"model": cfg, "generated": g, "distinct": d}

# ---------------------------------------------------------------- settings and formats (PkstlCodec)

SETTINGS = [(0, 0, "json"), (1, 64, "cbor"), (9, 0, "bin"), (6, 1000000, "json"), (9, 64, "cbor"), (6, 64, "raw"), (1, 65, "bin"), (9, 0, "text")]
CODECDEPS = ("PkstlCodec.tla", "PkstlLayer.tla", "PkstlWire.tla", "PkstlRuns.tla")

def long_walks(g, count, length, rnd, weight):
    """random walks from the initial state that prefer edges not yet taken; stops when all are"""
    E = g["edges"]
    succ = collections.defaultdict(list)
    for i, e in enumerate(E): succ[e[0]].append(i)
    root = (set(e[0] for e in E) - set(e[2] for e in E if e[2] != e[0])) or {E[0][0]}
    root = min(root)
    left = set(range(len(E)))
    out = []
    while left and len(out) < count:
        s, w = root, []
        for _ in range(length):
            if not succ[s]: break
            fresh = [i for i in succ[s] if i in left]
            c = fresh or succ[s]
            i = rnd.choices(c, [weight(g["ops"][E[i][1]]) for i in c])[0]
            left.discard(i); w.append(i); s = E[i][2]
        out.append(w)
    return out, len(left)

def codec(cfg, quick, seed):
    g = edges(cfg, "PkstlCodec.tla", CODECDEPS)
    rnd = random.Random("%s/%d" % (cfg, seed))
    ws, left = long_walks(g, 24 if quick else 2500, 70, rnd, lambda o: {"cfg": 0.15, "cl": 0.02}.get(o["op"], 1))
    lens = [-1, 0, 1, 63, 64, 65, 9000]
    small = [1, 5, 6, 10, 1000, 1002, 3000, 4003, 5002, 6002, 7000, 7003, 8002, 8006, 10003, 11001]
    medium = [2, 7, 1001, 2001, 9003, 13003]
    big = [3, 4, 8, 9, 2007, 9007]
    out = []
    for n, w in enumerate(ws):
        cc = lambda c: dict(zip(("lv", "ms", "fm"), SETTINGS[c - 1]))
        ops = [b.new("1", 1, 0, "full", cc(1)), b.new("2", 2, 0, "full", cc(2))]
        name = {1: "1", 2: "2"}
        ty, m = 0, 0
        for i in w:
            o = g["ops"][g["edges"][i][1]]
            h = name[o["h"]]
            if o["op"] == "cfg": ops.append(b.cfg(cc(o["c"]), h))
            elif o["op"] == "cl":
                name[o["h"]] = h + "k"; ops.append(b.cl(h, h + "k"))
            elif o["op"] == "rd": ops.append(b.rd(b.W("m%d" % m), h))
            elif o["op"] == "tr": ops.append(dict(b.rd(b.W("m%d" % m), h, "tr"), ty=ty))
            else:
                m += 1
                it = o["it"]
                if it <= 7:
                    d = {1: 0, 2: 1}.get(it) if it < 3 else {"c": 140000 + 100 * n + m, "len": lens[it - 1], "kind": rnd.choice(["rand", "text", "zero"])}
                    ops.append({"con": b.con, "ack": b.ack, "wr": b.wr}[o["op"]](h, d, "m%d" % m))
                else:
                    t = 0 if it == 8 else rnd.choice({9: small, 10: medium, 11: big}[it])
                    ty = t // 1000
                    ops.append(b.tw({"con": "C", "ack": "A", "wr": "U"}[o["op"]], t, h, "m%d" % m))
        out.append(dict(b.S("codec-%d" % n, ops), solo=1))
    return out, {"model": cfg, "states": g["distinct"], "edges": len(g["edges"]), "uncovered_goals": left, "executed": len(out)}

# ---------------------------------------------------------------- lives of layers and secrets (PkstlLife)

LIFEDEPS = ("PkstlLife.tla", "PkstlLayer.tla", "PkstlWire.tla", "PkstlRuns.tla")

def life(cfg, quick, seed):
    g = edges(cfg, "PkstlLife.tla", LIFEDEPS)
    rnd = random.Random("%s/%d" % (cfg, seed))
    ws, left = long_walks(g, 400 if quick else 9000, 24, rnd, lambda o: {"bad": 0.2, "drop": 0.3}.get(o["op"], 1))
    out = []
    for n, w in enumerate(ws):
        md = "full" if n % 3 else "min"
        ops, alive, org, num = [], {}, {}, 0
        for i in w:
            o = g["ops"][g["edges"][i][1]]
            h, of, k = str(o["h"]), str(o["o"]), o["op"]
            if k == "new": ops.append(b.new(h, 8 + o["h"] + 2 * (n % 2), 0, md)); alive[h] = 0; org[h] = h
            elif k == "con": ops.append(b.con(h, 100 + n))
            elif k == "ack": ops.append(b.ack(h, 200 + n))
            elif k == "rdc": ops.append(b.rd(b.C(2, "e1", 5), h))
            elif k == "rda": ops += [b.rd(b.A(2, of, 11), h)] + b.md_dr(md, h)
            elif k == "rdu": ops.append(b.rd(b.U(o["n"], 300 + n, "e1", of), h))
            elif k == "wr": ops.append(b.wr(h, 400 + n))
            elif k == "bad": ops.append(b.rd({"rand": rnd.choice([0, 3, 20, 60, 200]), "rs": n}, h))
            elif k == "cl":
                t = str(o["t"]); ops.append(b.cl(h, t)); alive[t] = 0; org[t] = of
            elif k == "drop": ops.append(b.drop(h)); alive.pop(h, None)
        # what is left goes on, then disappears
        for h in list(alive): ops += [b.wr(h, 500 + n), b.rd(b.U(5, 600 + n, "e1", org[h]), h), b.cl(h, h + "x"), b.drop(h), b.wr(h + "x", 501 + n), b.rd(b.U(6, 601 + n, "e1", org[h]), h + "x"), b.drop(h + "x")]
        out.append(dict(b.S("life-%d" % n, ops), er=1, solo=1))
    return out, {"model": cfg, "states": g["distinct"], "edges": len(g["edges"]), "uncovered_goals": left, "executed": len(out)}
