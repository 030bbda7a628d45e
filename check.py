#!/usr/bin/env python3
"""check.py <property> [--thorough] | --setup | --replay FILE"""
import hashlib, json, os, random, sys, time, threading, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pkv import run, plan, model

def evidence(pid, tier, seed, cov, viol, t0, assumptions):
    d = os.path.join(run.ROOT, "evidence"); os.makedirs(d, exist_ok=True)
    e = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": assumptions,
         "violations": viol, "wall_s": round(time.time() - t0, 2)}
    with open(os.path.join(d, pid + ".json"), "w") as f: json.dump(e, f, indent=1)

ASSUME = ["the primitives of ring, scrypt, flate2 and the serde formats are trusted (used by the harness to build and open messages)",
          "secrecy and unforgeability are judged symbolically: what the holder of given keys can compute, not the hardness of breaking them",
          "ephemeral keys come from the operating system's generator: the code side of a run is not replayable bit for bit, the scenario is"]

def save(pid, scn, seed, events, vs):
    d = os.path.join(run.WORK, "replay", pid); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, hashlib.sha256(scn["id"].encode()).hexdigest()[:12] + ".json")
    with open(p, "w") as f: json.dump({"property": pid, "seed": seed, "scenario": scn, "events": events, "violations": vs}, f, indent=1)
    return p

def check(pid, thorough):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if thorough else "quick"
    wd = run.workdir(pid)
    try:
        design, derr = [], []
        def dm():
            try:
                for cfg in plan.design(pid, thorough): design.append(model.design(cfg, thorough))
            except Exception as e: derr.append(e)
        th = threading.Thread(target=dm); th.start()
        binp = run.build()
        scns, info = plan.scenarios(pid, thorough, seed)
        byid = {s["id"]: s for s in scns}
        if len(byid) != len(scns): raise run.ToolError("scenario identifiers are not unique")
        tp, lost, broken = run.execute_all(binp, scns, seed, wd)
        th.join()
        if derr: raise derr[0]
        reports, (nev, ntr, states) = run.validate(tp, wd)
        idx = run.PROPS.index(pid)
        ob = sum(r["cnt"][idx] for r in reports)
        bad = {}
        for r in reports:
            vs = [v for v in r["viol"] if v["p"] == pid]
            if vs: bad[r["trace"]] = vs
        kf = [k for k in run.known_findings() if k["property"] == pid]
        known = [k for k in kf if k["scenario"] in bad and all(v["why"] == k["why"] for v in bad[k["scenario"]])]
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            del bad[k["scenario"]]
        ev = {}
        want = set(sorted(bad, key=lambda i: len(byid[i]["ops"]))[:5])
        samples = {}
        with open(tp) as f:
            for n, l in enumerate(f):
                if want or n % max(1, ntr // 3) == 1:
                    t = json.loads(l)
                    if t["id"] in want: ev[t["id"]] = t["ev"]
                    elif n % max(1, ntr // 3) == 1 and len(samples) < 2: samples[t["id"]] = t["ev"][:12]
        replays = []
        for i in sorted(want, key=lambda i: len(byid[i]["ops"])):
            replays.append(save(pid, byid[i], seed, ev.get(i), bad[i]))
            print("%s in scenario %s, event %d: %s" % (pid, i, bad[i][0]["ev"], bad[i][0]["why"]))
        if pid == "C14":
            for s, how in lost:
                replays.append(save(pid, s, seed, None, [{"p": pid, "why": how}]))
                bad[s["id"]] = how
                print("C14 in scenario %s: %s" % (s["id"], how))
        elif pid == "C26" and any("var" in s for s, _ in lost):
            for s, how in lost:
                if "var" in s:
                    replays.append(save(pid, s, seed, None, [{"p": pid, "why": how}])); bad[s["id"]] = how
                    print("C26 in scenario %s: %s" % (s["id"], how))
        elif lost:
            print("note: %d scenarios ended the process (see C14)" % len(lost))
        for n, why in sorted(broken.items()):
            if pid == "C26":
                s = {"id": "build-" + n, "var": n, "ops": []}
                replays.append(save(pid, s, seed, None, [{"p": pid, "why": why}])); bad[s["id"]] = why
                print("C26: the crate does not build with the features {%s}:\n%s" % (", ".join(run.VARIANTS[n][0]), why))
            else: print("note: the crate does not build with the features {%s} (see C26)" % ", ".join(run.VARIANTS[n][0]))
        nontriv = sum(1 for r in reports if r["cnt"][idx] > 0)
        cov = {"states": states + sum(d["distinct"] for d in design), "transitions": states - ntr + sum(d["generated"] for d in design),
               "traces_validated_against_impl": ntr, "events": nev, "obligations_of_this_property": ob, "traces_exercising_this_property": nontriv,
               "design_models": design, "scenario_models": info, "known_findings": [k["scenario"] for k in known], "scenarios_lost": len(lost),
               "samples": [{"scenario": byid[k]["id"], "ops": byid[k]["ops"][:12], "events": v} for k, v in samples.items()]}
        evidence(pid, tier, seed, cov, len(bad), t0, ASSUME)
        if ob == 0: raise run.ToolError("no obligation of %s was exercised" % pid)
        if bad:
            print("%d scenarios violate %s" % (len(bad), pid))
            print("VIOLATION property=%s replay=%s" % (pid, replays[0]))
            return 1
        print("%s held: %d obligations in %d of %d executions (%d events), %.1f s" % (pid, ob, nontriv, ntr, nev, time.time() - t0))
        return 0
    finally:
        run.subprocess.run(["rm", "-rf", wd])

def replay(path):
    with open(path) as f: r = json.load(f)
    wd = run.workdir("replay")
    try:
        tp, lost, broken = run.execute_all(run.build(), [r["scenario"]], r["seed"], wd)
        if broken: print(list(broken.values())[0]); return 1
        if not r["scenario"]["ops"]: return 0
        for s, how in lost:
            print(s["id"], how); return 1
        reports, _ = run.validate(tp, wd)
        ev = json.loads(open(tp).readline())["ev"]
        for n, e in enumerate(ev): print(n + 1, json.dumps(e))
        vs = [v for v in reports[0]["viol"]]
        for v in vs: print("%s event %d: %s" % (v["p"], v["ev"], v["why"]))
        return 1 if any(v["p"] == r["property"] for v in vs) else 0
    finally:
        run.subprocess.run(["rm", "-rf", wd])

def survey():
    """one run with the scenarios of every property: which properties are violated"""
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    wd = run.workdir("survey")
    try:
        binp = run.build()
        scns, _ = plan.scenarios(None, False, seed)
        tp, lost, broken = run.execute_all(binp, scns, seed, wd)
        reports, n = run.validate(tp, wd)
        kf = {(k["property"], k["scenario"], k["why"]) for k in run.known_findings()}
        c = collections.defaultdict(list)
        cnt = [0] * len(run.PROPS)
        for r in reports:
            for k in range(len(run.PROPS)): cnt[k] += r["cnt"][k]
            for v in r["viol"]:
                if (v["p"], r["trace"], v["why"]) not in kf: c[v["p"]].append((r["trace"], v["ev"], v["why"]))
        for s, how in lost: c["C14"].append((s["id"], 0, how))
        for g in broken: c["C26"].append(("build-" + g, 0, "does not build"))
        print("obligations", dict(zip(run.PROPS, cnt)))
        for p in sorted(c): print(p, len(c[p]), len(set(x[0] for x in c[p])), c[p][0])
        return 1 if c else 0
    finally:
        run.subprocess.run(["rm", "-rf", wd])

def main(a):
    if a[:1] == ["--survey"]: return survey()
    try:
        if a[:1] == ["--setup"]:
            run.build()
            for cfg in plan.MODELS: model.edges(cfg)
            plan.nets(False, int(os.environ.get("VERIF_SEED", "1") or 1))
            return 0
        if a[:1] == ["--replay"]: return replay(a[1])
        return check(a[0], "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough")
    except (run.ToolError, run.subprocess.TimeoutExpired) as e:
        print("error of the check: %s" % e)
        return 2

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
