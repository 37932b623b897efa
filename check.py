#!/usr/bin/env python3
"""check.py PROPERTY [--update-hints] : decides one property on /repo's current tree.

1. exports the SSA of the package under contract from /repo;
2. verifies every function the property rests on against its contract
   (first with the committed invariants, then, if that fails, by a search);
3. when an obligation fails, looks for a failing input against the real code.
Exit 0: every obligation discharged.  Exit 1: VIOLATION."""
import sys, os, json, time, subprocess, tempfile, shutil, multiprocessing as mp, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "contracts")); sys.path.insert(0, os.path.join(HERE, "gover")); sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
REPO = os.environ.get("VERIF_REPO", "/repo")
T0 = time.time()
import config

ENV = dict(os.environ)
GO = "/opt/veriftools/go1.27.3/bin"
ENV.update(PATH=GO + ":" + os.environ.get("PATH", ""), GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="0")
ENV.setdefault("HOME", "/root")

def left(limit): return limit - (time.time() - T0)

def export(pkg, tmp):
    binp = os.path.join(HERE, "build", "gexport")
    src = os.path.join(HERE, "gover", "export")
    if not os.path.exists(binp):
        binp = os.path.join(tmp, "gexport")
        p = subprocess.run(["go", "build", "-o", binp, "."], cwd=src, env=ENV, capture_output=True, text=True)
        if p.returncode: raise RuntimeError("building the exporter: " + p.stderr[-2000:])
    out = os.path.join(tmp, "mod.json")
    p = subprocess.run([binp, REPO, out, pkg], cwd=REPO, env=ENV, capture_output=True, text=True, timeout=300)
    if p.returncode or not os.path.exists(out): return None, (p.stderr or p.stdout)[-2000:]
    return out, ""

# ---------------------------------------------------------------- workers
G = {}
def pack(o):
    return {"name": o.name, "tags": o.tags, "kind": o.kind, "pos": o.pos, "path": o.path[:300], "result": o.result, "backend": o.backend, "secs": round(o.secs, 3), "out": o.out[:500] if o.result == "error" else ""}
def work(job):
    fname, mode, hints, threads = job
    import verify, exec as X
    verify.THREADS = threads
    ctx = verify.Ctx()
    try:
        r = verify.verify(ctx, G["mod"], G["sp"], fname, G["model"](G["mod"]), hints, mode=mode, log=print if os.environ.get("VERIF_LOG") else None)
        need = None
        if mode == "full": need = sorted(verify.needed(r.run, r.obs))
        return {"fn": r.fn, "full": fname, "mode": mode, "error": r.error, "obs": [pack(o) for o in r.obs], "uncovered": r.uncovered, "secs": r.secs, "kept": r.kept, "need": need,
                "calls": sorted(r.run.calls), "inlined": sorted(r.run.inlined), "models": sorted(r.run.usedmodels), "assumes": sorted(r.run.assumes), "lemmas": sorted(getattr(r.run, "usedlemmas", ())),
                "rounds": r.rounds, "time": ctx.stats.time, "queries": ctx.stats.queries, "by": ctx.stats.by}
    except Exception as e:
        return {"fn": X.short(fname), "full": fname, "mode": mode, "error": "verifier: %s" % traceback.format_exc()[-800:], "obs": [], "uncovered": [], "secs": 0, "kept": [], "need": None, "calls": [], "inlined": [], "models": [], "assumes": [], "lemmas": [], "rounds": 0, "time": 0, "queries": 0, "by": {}}

SEED = json.load(open(os.environ["VERIF_SEED_HINTS"])) if "VERIF_SEED_HINTS" in os.environ else {}
def ok(r): return not r["error"] and not r["uncovered"] and all(o["result"] == "unsat" for o in r["obs"])

def run_jobs(jobs, procs, deadline, stop=None):
    """Runs verification jobs in worker processes; those past the deadline are cut."""
    res = {}
    if not jobs: return res
    ctx = mp.get_context("fork")
    pool = ctx.Pool(min(procs, len(jobs)), initializer=os.setpgrp if False else None)
    try:
        hs = [(j, pool.apply_async(work, (j,))) for j in jobs]
        pending = list(hs)
        while pending and left(deadline) > 0:
            nxt = []
            for j, h in pending:
                if h.ready(): res[j[0]] = h.get()
                else: nxt.append((j, h))
            pending = nxt
            if stop and stop(res): break
            if pending: pending[0][1].wait(0.1)
        for j, h in pending:
            if j[0] not in res:
                import exec as X
                res[j[0]] = {"fn": X.short(j[0]), "full": j[0], "mode": j[1], "error": "not decided: time limit", "cut": True, "obs": [], "uncovered": [], "secs": 0, "kept": [], "need": None, "calls": [], "inlined": [], "models": [], "assumes": [], "lemmas": [], "rounds": 0, "time": 0, "queries": 0, "by": {}}
    finally:
        pool.terminate(); pool.join()
    return res

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    update = "--update-hints" in sys.argv
    cfg = config.PROPS[prop]
    tmp = tempfile.mkdtemp(prefix="verif_")
    try: return check(prop, cfg, tier, seed, update, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def check(prop, cfg, tier, seed, update, tmp):
    import load, spec, exec as X
    group = config.GROUPS[cfg["group"]]
    failures = []; results = {}; names = []; missing = []
    path, err = export(group["pkg"], tmp)
    if path is None:
        failures.append({"obligation": "the package builds", "detail": err})
    else:
        try:
            G["mod"] = load.Module(path); G["model"] = group["model"]()
            G["sp"] = group["spec"](G["mod"], prop)
            byshort = {}
            for n in sorted(G["mod"].funcs, key=lambda n: bool(G["mod"].funcs[n].get("synth"))): byshort.setdefault(X.short(n), n)
            want = group["functions"](G["mod"], G["sp"], prop, cfg)
            missing = [w for w in want if w not in byshort]
            names = [byshort[w] for w in want if w in byshort]
            only = os.environ.get("VERIF_ONLY")
            if only and update: names = [n for n in names if X.short(n) in only.split(",")]
        except Exception as e:
            failures.append({"obligation": "contracts apply to the code", "detail": traceback.format_exc()[-1500:]})
    for w in missing: failures.append({"obligation": "function under contract %s exists" % w, "detail": "not found in the package"})
    hp = os.path.join(HERE, "hints", "%s.json" % prop)
    hints = json.load(open(hp)) if os.path.exists(hp) and not update else {}
    order = sorted(names, key=lambda n: -hints.get(X.short(n), {}).get("secs", 1e6))
    limit = 700 if tier == "quick" else 3000
    P = int(os.environ.get("VERIF_PROCS", "4")); TH = int(os.environ.get("VERIF_THREADS", "2"))
    replay = None
    full = []
    if names:
        known = [(n, "hint", hints[X.short(n)]["cands"], TH) for n in order if X.short(n) in hints]
        results.update(run_jobs(known, P, limit * 0.4))
        full = [n for n in order if n not in results or not ok(results[n])]
        suspect = [n for n in full if n in results]
        if (suspect or missing) and not update:
            replay = find_input(prop, cfg, group, seed, tmp, tier)
        near = [n for n in full if X.short(n) in hints]
        if not (replay and replay.get("found")) and near and not update:
            r2 = run_jobs([(n, "near", hints[X.short(n)]["cands"], max(2, 8 // len(near))) for n in near], min(4, len(near)), limit * 0.7)
            for n, r in r2.items():
                if ok(r): results[n] = r
            full = [n for n in full if n not in results or not ok(results[n])]
        if not (replay and replay.get("found")) and full:
            r2 = run_jobs([(n, "full", SEED.get(X.short(n)), max(2, 8 // max(1, len(full)))) for n in full], max(1, min(4, len(full))), limit, None)
            for n, r in r2.items():
                if r.get("cut") and n in results: results[n]["error"] = results[n]["error"] or None; continue
                results[n] = r
    bad = [r for r in results.values() if not ok(r)]
    for r in bad:
        if r["error"]: failures.append({"obligation": "%s: within the verifier's reach" % r["fn"], "detail": r["error"]})
        for u in r["uncovered"]: failures.append({"obligation": "%s: contract is not vacuous" % r["fn"], "detail": "the assumptions at %s are contradictory" % u})
        for o in r["obs"]:
            if o["result"] not in ("unsat", "skipped"): failures.append({"obligation": "%s: %s" % (r["fn"], o["name"]), "detail": "%s at %s, path %s (%s)" % (o["result"], o["pos"], o["path"], o["out"])})
    if update:
        h = json.load(open(hp)) if os.path.exists(hp) and os.environ.get("VERIF_ONLY") else {}
        for n in names:
            r = results[n]
            if ok(r): h[r["fn"]] = {"cands": r["need"] if r["need"] is not None else r["kept"], "secs": round(r["secs"], 1)}
        json.dump(h, open(hp, "w"), indent=0, sort_keys=True); open(hp, "a").write("\n")
    extra = group.get("extra")
    if extra and path: 
        ex = extra(prop, G.get("mod"), REPO, tmp, ENV)
        if ex: failures += ex["failures"]
    else: ex = None
    if failures and replay is None and not update: replay = find_input(prop, cfg, group, seed, tmp, tier)
    write_evidence(prop, cfg, group, tier, seed, results, failures, ex, hints)
    for k in config.known_findings(prop): print("KNOWN-FINDING: property=%s %s" % (prop, k))
    nob = sum(len(r["obs"]) for r in results.values()); nd = sum(1 for r in results.values() for o in r["obs"] if o["result"] == "unsat")
    print("%s: %d functions under contract, %d obligations, %d discharged, %.1f s" % (prop, len(results), nob, nd, time.time() - T0))
    if not failures: return 0
    for f in failures[:12]: print("  failed obligation: %s: %s" % (f["obligation"], " ".join(f["detail"].split())[:300]))
    rp = os.path.join(HERE, "evidence", "%s.replay.txt" % prop)
    with open(rp, "w") as fh:
        fh.write("property %s\n\nfailed obligations:\n" % prop)
        for f in failures[:50]: fh.write("  %s\n      %s\n" % (f["obligation"], f["detail"]))
        fh.write("\nreplay against the real code:\n%s\n" % (replay or {}).get("text", "none"))
    print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if replay and replay.get("found") else " no-failing-input-found"))
    return 1

def find_input(prop, cfg, group, seed, tmp, tier):
    """Runs the replay harness of the property against the real code."""
    rep = group["replay"]
    src = os.path.join(HERE, "replay", rep["file"]); dst = os.path.join(REPO, rep["dst"])
    ov = os.path.join(tmp, "overlay.json")
    m = {dst: src}
    for d in os.listdir(os.path.join(REPO, os.path.dirname(rep["dst"]))):     # the package's own tests are not needed
        if d.endswith("_test.go"): m[os.path.join(REPO, os.path.dirname(rep["dst"]), d)] = ""
    json.dump({"Replace": m}, open(ov, "w"))
    out = os.path.join(tmp, "replay.out")
    env = dict(ENV, VERIF_PROP=prop, VERIF_SEED=str(seed), VERIF_OUT=out, VERIF_BUDGET="60" if tier == "quick" else "300", TMPDIR=tmp)
    try:
        p = subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout", "150s", "-overlay", ov, "-run", "TestVerifReplay$", "./" + os.path.dirname(rep["dst"])], cwd=REPO, env=env, capture_output=True, text=True, timeout=240)
        log = (p.stdout + p.stderr)[-6000:]
    except subprocess.TimeoutExpired as e:
        log = "timeout"
    if os.path.exists(out):
        t = open(out).read()
        if t.strip(): return {"found": True, "text": t}
    if os.path.exists(out + ".json") and rep.get("judge"):
        t = rep["judge"](out + ".json")
        if t: return {"found": True, "text": t}
    cur = out + ".cur"
    if os.path.exists(cur) and ("panic: " in log or "fatal error: " in log):      # the process itself was brought down
        return {"found": True, "text": open(cur).read() + "\nthe program crashes:\n" + log}
    return {"found": False, "text": "no failing input found\n" + log}

def write_evidence(prop, cfg, group, tier, seed, results, failures, ex, hints):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    obs = [o for r in results.values() for o in r["obs"]]
    by = {}
    for o in obs:
        if o["result"] == "unsat": by[o["backend"] or "?"] = by.get(o["backend"] or "?", 0) + 1
    kinds = {}
    for o in obs: kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
    cov = {"obligations": len(obs), "discharged": sum(1 for o in obs if o["result"] == "unsat"),
           "checker_cmd": "python3 /verif/check.py %s" % prop,
           "functions_under_contract": {r["fn"]: {"obligations": len(r["obs"]), "discharged": sum(1 for o in r["obs"] if o["result"] == "unsat"), "inlined": r["inlined"], "callees_by_contract": r["calls"], "invariants": len(r["need"] or r["kept"]), "mode": r["mode"], "secs": round(r["secs"], 1)} for r in sorted(results.values(), key=lambda r: r["fn"])},
           "obligations_by_kind": kinds, "discharged_by_backend": by, "solver_seconds": round(sum(r["time"] for r in results.values()), 1), "solver_queries": sum(r["queries"] for r in results.values()),
           "modelled_functions": sorted({m for r in results.values() for m in r["models"]}),
           "trusted_base": group["trusted"] + ["lemma (a theorem of /verif/" + group["lemmas"] + l + ")" for l in sorted({l for r in results.values() for l in r["lemmas"]})]}
    if ex: cov["additional"] = ex["report"]
    d = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"), "coverage": cov, "assumptions": group["assumptions"] + cfg.get("assumptions", []) + sorted({a for r in results.values() for a in r["assumes"]}), "wall_s": round(time.time() - T0, 2), "violations": 1 if failures else 0}
    json.dump(d, open(os.path.join(HERE, "evidence", "%s.json" % prop), "w"), indent=1)

if __name__ == "__main__":
    sys.exit(main())
