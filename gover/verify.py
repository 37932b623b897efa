"""Verifies one function: Houdini fixpoint over invariant candidates, then
every obligation, in parallel, with several solvers."""
import re, time, os, sys, threading, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor
from smt import *
import exec as X, spec, load

THREADS = int(os.environ.get("GOVER_THREADS", "8"))

def reldefs(run, terms, seen):
    """Definitions of the relation symbols the terms mention."""
    rel = getattr(run, "reldefs", {}); out = []
    if rel:
        for t in terms:
            for r in re.findall(r"R!\d+", t):
                if r not in seen:
                    seen.add(r)
                    if r in rel: out.append(rel[r])
    return out

def query(run, pc, goal):
    body = [x for x in pc]
    if goal is not None: body.append(Not(goal))
    extra = reldefs(run, body, set())
    txt = [X.PRELUDE] + run.decls + ["(assert %s)" % t for t in extra + body] + ["(check-sat)\n"]
    return "\n".join(txt)

def level(t):
    """How much of the theory of relations a formula involves."""
    l = LEVELS.get(t)
    if l is None:
        l = 2 if re.search(r"\b(?:reach|indirect|dist|esum)\b", t) else 1 if re.search(r"\bmem\b|\bR!\d", t) else 0
        LEVELS[t] = l
    return l
LEVELS = {}
def keep(ts, lim): return ts if lim >= 2 else [t for t in ts if level(t) <= lim]
def decls(run, lim): return run.decls if lim >= 2 else [t for t in run.decls if not t.startswith("(assert") or level(t) <= lim]

def batch(ctx, run, obs, to, lim=2):
    """One solver process for obligations whose assumptions extend one another.
    With lim < 2 only the assumptions about simpler notions are given."""
    txt = ["(set-option :produce-unsat-cores true)", X.PRELUDE] + decls(run, lim)
    seen = set(); done = 0; names = {}
    def assertion(t):
        if isinstance(t, X.CandTerm):
            n = "c!!%d" % len(names); names[n] = t.cand
            return "(assert (! %s :named %s))" % (t, n)
        return "(assert %s)" % t
    for o in obs:
        delta = keep(o.pc[done:o.base], lim); done = o.base
        txt += ["(assert %s)" % t for t in reldefs(run, delta, seen)] + [assertion(t) for t in delta]
        loc = keep(o.pc[o.base:], lim) + [Not(o.goal)]
        txt += ["(push)"] + ["(assert %s)" % t for t in reldefs(run, loc, set(seen))] + [assertion(t) for t in loc[:-1]] + ["(assert %s)" % loc[-1], '(check-sat)', "(get-unsat-core)", '(echo "--")', "(pop)"]
    t0 = time.time()
    name, cmd = SOLVERS[0]
    try:
        r = subprocess.run(cmd, input="(set-option :timeout %d)\n" % int(to * 1000) + "\n".join(txt) + "\n", capture_output=True, text=True, timeout=to * len(obs) + 20)
        out = r.stdout
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
    dt = time.time() - t0
    parts = out.split("--\n"); ok = 0
    for o, p in zip(obs, parts):
        ans = p.strip().split("\n")
        ans = [a for a in ans if a]
        if ans and ans[0] == "unsat":
            o.result = "unsat"; o.backend = name; ok += 1
            o.core = {names[c] for c in re.findall(r"c!!\d+", " ".join(ans[1:])) if c in names}
        elif ans and ans[0].startswith("(error"): o.out = p[:2000]
        o.secs = dt / len(obs)
    with ctx.stats.lock:
        ctx.stats.time += dt; ctx.stats.queries += len(obs); ctx.stats.by[name] = ctx.stats.by.get(name, 0) + ok

class Ctx:
    def __init__(s):
        s.stats = Stats(); s.pool = ThreadPoolExecutor(THREADS); s.cache = {}; s.deadline = None

def named(pc):
    """The assumptions as assertions; those that are invariant candidates get names."""
    out = []; names = {}
    for t in pc:
        if isinstance(t, X.CandTerm):
            n = "c!!%d" % len(names); names[n] = t.cand; out.append("(assert (! %s :named %s))" % (t, n))
        else: out.append("(assert %s)" % t)
    return out, names

def solve(ctx, run, ob, timeouts):
    if ob.goal == "true": ob.result = "unsat"; ob.backend = "syntactic"; ob.core = set(); return ob
    full = text(run, ob, 2)
    h = hashlib.sha256(full[0].encode()).hexdigest()
    if h in ctx.cache and ctx.cache[h][0] == "unsat":
        ob.result, ob.backend, ob.out, ob.core = ctx.cache[h]; return ob
    ob.result = "unknown"; lv = level(ob.goal)
    for idx, to, light in timeouts:
        if ctx.deadline and time.time() > ctx.deadline: break
        if light and lv == 2: continue
        q, names = text(run, ob, lv) if light else full
        ans, out, dt = run_solver(idx, q, to)
        ctx.stats.add(SOLVERS[idx][0], dt, ans == "unsat")
        ob.secs += dt
        if ans == "error": ob.out = out[:2000]; ob.result = "error"; continue
        if ans == "unsat":
            ob.result = "unsat"; ob.backend = SOLVERS[idx][0]
            ob.core = {names[c] for c in re.findall(r"c!!\d+", out) if c in names}
            break
        if ans == "sat" and not light: ob.result = "sat"; ob.backend = SOLVERS[idx][0]; break
    ctx.cache[h] = (ob.result, ob.backend, ob.out, ob.core)
    return ob

def text(run, ob, lim):
    pc = keep(ob.pc, lim)
    asserts, names = named(pc)
    extra = reldefs(run, pc + [ob.goal], set())
    q = "\n".join(["(set-option :produce-unsat-cores true)", X.PRELUDE] + decls(run, lim) + ["(assert %s)" % t for t in extra] + asserts + ["(assert %s)" % Not(ob.goal), "(check-sat)", "(get-unsat-core)\n"])
    return q, names

def batches(obs, size):
    out = []; cur = []
    for o in obs:
        if cur and (len(cur) >= size or o.base < cur[-1].base or any(a is not b and a != b for a, b in zip(cur[-1].pc[:cur[-1].base], o.pc))):
            out.append(cur); cur = []
        cur.append(o)
    if cur: out.append(cur)
    return out

def solve_all(ctx, run, obs, timeouts, size=24, first=0.7, stop=False):
    todo = []
    for o in obs:
        if o.result == "unsat": continue
        o.result = None
        if o.goal == "true": o.result = "unsat"; o.backend = "syntactic"; o.core = set()
        else: todo.append(o)
    jobs = [(b, l) for l in (0, 1, 2) for b in batches([o for o in todo if level(o.goal) == l], size)]
    list(ctx.pool.map(lambda j: batch(ctx, run, j[0], first, j[1]), jobs))
    rest = [o for o in todo if o.result != "unsat" and level(o.goal) < 2]
    list(ctx.pool.map(lambda b: batch(ctx, run, b, first, 2), batches(rest, size)))
    fails = []
    def one(o):
        if stop and len(fails) >= 3: o.result = "skipped"; return
        solve(ctx, run, o, timeouts)
        if o.result != "unsat": fails.append(o)
    if timeouts: list(ctx.pool.map(one, [o for o in todo if o.result != "unsat"]))
    return obs

CAND_T = [(1, 4, True), (1, 6, False)]
if os.environ.get("GOVER_SLOW"): CAND_T = [(1, 6, True), (1, 15, False), (0, 4, False)]      # when hints are made
OB_T = [(1, 6, True), (1, 10, False), (0, 10, False), (2, 10, False), (1, 40, False)]

class Result: pass

def verify(ctx, mod, sp, fname, model, hints=None, log=None, covers=True, mode="full"):
    """mode "hint": the invariants in hints are assumed inductive and checked in
    one round.  mode "full": Houdini search over every candidate; mode "near": over
    those that say what the hints say, of whatever loops and variables there are now."""
    run = X.Run(mod, sp, fname, model)
    r = Result(); r.fn = X.short(fname); r.run = run; r.error = None; r.obs = []; t0 = time.time(); r.rounds = 0; r.uncovered = []; r.kept = []
    cores = {}
    if mode == "full" and hints is not None: run.allow = set(hints)
    if mode == "near": run.near = {X.near(c) for c in hints}
    try:
        while True:
            run.redo = False
            run.hint = set(hints) if mode == "hint" else None
            obs = run.run()
            if run.redo and mode != "hint": continue
            r.rounds += 1
            inv = [o for o in obs if o.kind == "inv"]
            if mode == "hint":
                solve_all(ctx, run, [o for o in obs if o.alt is None], OB_T, stop=True)
                obs = settle(ctx, run, obs)
                r.obs = obs; r.kept = sorted(run.hint); break
            # obligations already discharged in an earlier round without the dropped candidates
            keys = {}
            for o in inv:
                k = (o.cand, o.name, o.path, o.pos); keys[k] = keys.get(k, 0) + 1; o.key = k + (keys[k],)
                c = cores.get(o.key)
                if c is not None and not (c & run.dropped): o.result = "unsat"; o.backend = SOLVERS[0][0]; o.core = c
            bad = set()
            solve_all(ctx, run, inv, None)
            groups = {}
            for o in inv:
                if o.result != "unsat": groups.setdefault(o.cand, []).append(o)
            def retry(g):
                # one failing instance is enough to drop a candidate
                for o in g:
                    solve(ctx, run, o, CAND_T)
                    if o.result != "unsat": return
            list(ctx.pool.map(retry, groups.values()))
            for o in inv:
                if o.result != "unsat": bad.add(o.cand)
                elif getattr(o, "core", None) is not None: cores[o.key] = o.core
                if o.result == "error": raise X.Unsupported("solver error: " + o.out)
            if log: log("%s round %d: %d invariant obligations, %d candidates dropped %.1fs" % (r.fn, r.rounds, len(inv), len(bad), time.time() - t0))
            if log and os.environ.get("GOVER_DROPS"): log("   " + "  ".join(sorted(bad)))
            if not bad:
                rest = [o for o in obs if o.kind != "inv"]
                solve_all(ctx, run, [o for o in rest if o.alt is None], OB_T)
                r.obs = inv + settle(ctx, run, rest)
                r.kept = sorted({c for k in run.cands for c in run.cands[k] if (run.allow is None or c in run.allow) and (run.near is None or X.near(c) in run.near)} - run.dropped); break
            run.dropped |= bad
        for o in r.obs:
            if o.result == "error": raise X.Unsupported("solver error: " + o.out)
        if covers and all(o.result == "unsat" for o in r.obs):
            def cov(c):
                q = query(run, c[1], None)
                for i in (0, 1):
                    ans, out, dt = run_solver(i, q, 2)
                    if ans == "unsat": break
                if ans == "unsat" and deadbranch(run, c[1]): ans = "dead"
                return c[0], ans
            for nm, ans in ctx.pool.map(cov, run.covers):
                if ans == "unsat": r.uncovered.append(nm)
    except X.Unsupported as e:
        r.error = str(e)
    except SyntaxError as e:
        r.error = "contract error: %s" % e
    except Exception as e:
        r.error = "verifier: %s: %s" % (type(e).__name__, e)
        if log: import traceback; log(traceback.format_exc())
    r.secs = time.time() - t0
    return r

def settle(ctx, run, obs):
    """Of the ways to show that a loop ends, keeps one that holds for every round."""
    loops = {}
    for o in obs:
        if o.alt: loops.setdefault(o.alt[0], {}).setdefault(o.alt[1], []).append(o)
    keep = set()
    for key, alts in loops.items():
        n = max(len(x) for x in alts.values()); best = None
        for way, os_ in alts.items():
            if len(os_) < n: continue
            solve_all(ctx, run, os_, CAND_T)
            if best is None: best = os_
            if all(o.result == "unsat" for o in os_): best = os_; break
        keep |= set(map(id, best))
    return [o for o in obs if o.alt is None or id(o) in keep]

def deadbranch(run, pc):
    """Whether the contradiction comes from a branch that cannot be taken."""
    lo, hi = 0, len(pc)
    def bad(n):
        q = query(run, pc[:n], None)
        return any(run_solver(i, q, 2)[0] == "unsat" for i in (0, 1))
    while hi - lo > 1:
        m = (lo + hi) // 2
        if bad(m): hi = m
        else: lo = m
    return isinstance(pc[hi - 1], X.BrTerm)

def needed(run, obs, targets=None):
    """The candidates that the discharged obligations rest on, by unsat cores."""
    want = set(); todo = [o for o in obs if o.kind != "inv"]; done = set()
    byc = {}
    for o in obs:
        if o.kind == "inv": byc.setdefault(o.cand, []).append(o)
    while todo:
        o = todo.pop()
        for c in (o.core or ()):
            if c not in want: want.add(c); todo += byc.get(c, [])
    return want

def show(r, verbose=False):
    bad = [o for o in r.obs if o.result != "unsat"]
    print("%-32s %4d obligations %s %5.1fs%s" % (r.fn, len(r.obs), "ok" if not bad and not r.error else "FAIL", r.secs, " UNCOVERED %s" % r.uncovered if r.uncovered else ""))
    if r.error: print("   error:", r.error)
    for o in bad[:40]: print("   %s [%s] %s %s" % (o.name, o.result, o.pos, o.path[:150] if verbose else ""))
