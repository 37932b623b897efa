"""Which contracts decide which property, and what the proofs rest on."""
import os, re, json
HERE = os.path.dirname(os.path.abspath(__file__))

def closure(sp, mod, prop):
    """The functions tagged with the property, and the contracts they are checked against."""
    import exec as X
    fns = {}
    for n, f in mod.funcs.items(): fns.setdefault(X.short(n), f)
    def callees(n, seen):
        f = fns.get(n)
        if f is None or n in seen: return
        seen.add(n)
        for b in f["blocks"]:
            for i in b["instrs"]:
                for c in ([i["call"]["fn"]] if i.get("call", {}).get("fn") else []) + ([i["fn"]] if i["op"] == "MakeClosure" else []):
                    if c.get("k") == "fn" or "n" in c:
                        m = X.short(c["n"])
                        if m in sp.contracts: out.add(m); callees(m, seen)
                        elif m in fns: callees(m, seen)
    out = {n for n, c in sp.contracts.items() if prop in c.tags and "assumed" not in c.opts}
    seen = set()
    for n in sorted(out): callees(n, seen)
    return sorted(n for n in out if "assumed" not in sp.contracts[n].opts)

def dag_model():
    from dagmodel import DagModel
    return DagModel
def dag_spec(mod, prop):
    import spec
    return spec.SpecFile(os.path.join(HERE, "contracts", "dag.spec"), prop)
def etx_model():
    from etxmodel import EtxModel
    return EtxModel
def etx_spec(mod, prop):
    from etxmodel import EtxSpec
    return EtxSpec(mod, prop)
def etx_judge(path):
    import laycheck
    return laycheck.check(path)

def lean_lemmas(name):
    """The lemmas that the contracts use, checked by Lean."""
    import subprocess
    def run(prop, mod, repo, tmp, env):
        if name == "Text" and prop != "E06": return None
        f = os.path.join(HERE, "lemmas", name + ".lean"); src = open(f).read()
        thms = re.findall(r"^theorem ((?:lem|ax|join|def)_\w+)", src, re.M)
        try:
            p = subprocess.run(["lean", f], capture_output=True, text=True, timeout=200, env=env)
            good = p.returncode == 0 and "error" not in p.stdout and "sorry" not in p.stdout
            out = (p.stdout + p.stderr)[-500:]
        except (OSError, subprocess.TimeoutExpired) as e: good = None; out = str(e)
        fails = [{"obligation": "lemmas/%s.lean is accepted by Lean" % name, "detail": out}] if good is False else []
        return {"failures": fails, "report": {"lemmas": thms, "accepted_by_lean": good, "checker_cmd": "lean lemmas/%s.lean" % name}}
    return run

COMMON = [
    "the verifier itself (/verif/gover: exporter, symbolic execution of go/ssa, translation to SMT-LIB)",
    "golang.org/x/tools/go/ssa builds SSA that means what the compiler compiles",
    "SMT solvers z3 5.3.2, z3 4.8.12, cvc5 1.1.2 (an obligation counts when one of them answers unsat)",
]
GROUPS = {
    "dag": {"pkg": "./pkg/dag", "model": dag_model, "spec": dag_spec,
            "functions": lambda mod, sp, prop, cfg: closure(sp, mod, prop),
            "replay": {"file": "dag_replay_test.go", "dst": "pkg/dag/zz_verif_replay_test.go"},
            "trusted": COMMON + ["Lean 4 and Mathlib (for lemmas/Reach.lean)"], "extra": lean_lemmas("Reach"), "lemmas": "lemmas/Reach.lean: lem_",
            "assumptions": [
                "partial correctness: each obligation is for executions that reach its point; termination is not proved",
                "the graph is not used by two goroutines at once while it is being changed",
                "keys are reflexive under == (no NaN keys) and are not interface values holding nil or an uncomparable type",
                "integers are mathematical; the counts of things that fit in memory do not overflow",
                "maps are finite; iteration visits every key that stays in the map, in any order",
                "the graph was made by NewAcyclicGraph and changed only through its methods (the class invariant is a precondition)",
            ]},
}
GROUPS["etx"] = {"pkg": "./pkg/etx", "model": etx_model, "spec": etx_spec,
    "functions": lambda mod, sp, prop, cfg: sp.functions(prop),
    "replay": {"file": "etx_replay_test.go", "dst": "pkg/etx/zz_verif_replay_test.go", "judge": etx_judge},
    "trusted": COMMON + ["Lean 4 and Mathlib (for lemmas/Text.lean)"], "extra": lean_lemmas("Text"), "lemmas": "lemmas/Text.lean: ",
    "assumptions": [
        "partial correctness: each obligation is for executions that reach its point; termination is not proved",
        "the tree is not changed by another goroutine meanwhile",
        "integers are mathematical; lengths do not overflow",
        "a parsed tree has the shape the grammar in the struct tags allows (participle implements its grammar), its strings captured from tokens are not empty, and no node is shared or an ancestor of itself",
        "strings are sequences of bytes",
    ]}
PROPS = {p: {"group": "dag"} for p in ("D01", "D02", "D03", "D04", "D05", "D06", "D07", "D08", "D09", "D10", "D11")}

PROPS["D11"]["assumptions"] = ["a goroutine that can run is run; callbacks passed by the caller return; the statement about partial correctness above does not apply to D11: every loop and every recursion is shown to end"]
PROPS.update({"E%02d" % i: {"group": "etx"} for i in range(1, 13)})

def known_findings(prop):
    p = os.path.join(HERE, "known-findings.txt"); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop: out.append(m.group(2))
    return out
