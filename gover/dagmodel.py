"""Memory model of pkg/dag: a versioned heap of maps and graph objects,
channels with ghost histories, and relations with reachability."""
import re
from smt import *
from exec import *
from model import Model, ReflV
import exec as X

class DagModel(Model):
    spec_sorts = {"rel": "Rel", "set": "(Array S_K Bool)", "chan": "Ref"}
    PKG = "github.com/hexbee-net/etxe/pkg/dag."
    def __init__(s, mod):
        super().__init__(); s.mod = mod
        s.errs = s.error_globals(mod)
        for e in s.errs: CONSTS.add("g_" + e)
        CONSTS.add("nilI")
    def error_globals(s, mod):
        """Package error variables that the initialiser sets once, each from its own errors.New."""
        init = mod.funcs.get(s.PKG + "init"); vals = {}; stores = {}
        for b in init["blocks"]:
            for i in b["instrs"]:
                if i["op"] == "Call" and i["call"].get("fn", {}).get("n") == "errors.New": vals[i["r"]] = True
                if i["op"] == "Store" and i["addr"]["k"] == "global":
                    stores.setdefault(i["addr"]["n"], []).append(i["v"])
        used = {}; out = []
        for g, vs in stores.items():
            if len(vs) == 1 and vs[0]["k"] == "reg" and vs[0]["n"] in vals: used.setdefault(vs[0]["n"], []).append(g)
        for r, gs in used.items():
            if len(gs) == 1: out.append(gs[0].rsplit(".", 1)[-1])
        for fn in mod.funcs.values():
            if fn["name"].endswith(".init"): continue
            for b in fn["blocks"]:
                for i in b["instrs"]:
                    if i["op"] == "Store" and i["addr"]["k"] == "global":
                        n = i["addr"]["n"].rsplit(".", 1)[-1]
                        if n in out: out.remove(n)
        return sorted(out)
    def begin(s, run):
        s.pend = []; s.rk = {}; s.memo = {}; run.memodef = {}; run.reldefs = {}; run.distdefs = set()
        if s.errs:
            for e in s.errs: run.decl("(declare-const g_%s Iface)" % e)
            run.decls.append("(assert (distinct nilI %s))" % " ".join("g_" + e for e in s.errs))
    # ---------------------------------------------------------------- globals and heap objects
    def global_load(s, run, st, p):
        n = p.n.rsplit(".", 1)[-1]
        if n in s.errs: return TV(p.ty.elem, "g_" + n)
        if p.ty.elem.under.k == "iface":
            return TV(p.ty.elem, run.fresh("Iface", "glob_" + n))
        raise Unsupported("package variable " + p.n)
    def spec_const(s, run, n, env):
        if n in s.errs: return SV("Iface", "g_" + n)
        if re.match(r"Err[A-Z]", n): raise Unsupported("%s is not a distinct error value" % n)
        if n == "zero": return SV("S_K", run.zero(run.spec_sort("K", env)[1]).t)
        return None
    def fieldcomp(s, run, sty, path):
        if len(path) != 1: raise Unsupported("nested struct field")
        f = sty.under.fields[path[0]]
        nm = "F_%s_%s" % (sty.name, f[0])
        return nm, "(Array Ref %s)" % run.sort(f[1]), f[1]
    def heap_load(s, run, st, p):
        nm, so, fty = s.fieldcomp(run, p.sty, p.path)
        c = run.ensure_comp(st, nm, so)
        return run.unterm(st, fty, s.memo_field(run, c, p.ref, run.sort(fty), p.sty.under.fields[p.path[0]][0]))
    def memo_field(s, run, c, ref, so, hint):
        """One name per field of an object and version of the heap."""
        if (c, ref) not in s.memo:
            r = run.fresh(so, hint)
            run.decls.append("(assert (= %s %s))" % (r, Sel(c, ref)))
            s.memo[(c, ref)] = r; run.memodef[r] = c + " " + ref
        return s.memo[(c, ref)]
    def heap_store(s, run, fr, st, p, v, ins):
        nm, so, fty = s.fieldcomp(run, p.sty, p.path)
        c = run.ensure_comp(st, nm, so)
        run.setcomp(st, nm, Sto(c, p.ref, run.term(st, v)), p.ref)
    def alloc_heap(s, run, st, ety, ins):
        if ety.under.k == "struct" and ety.k == "named" and ety.pkg and ety.pkg.endswith("/dag") and (ins["heap"] or True):
            r = run.alloc(st, ety.name)
            for i, f in enumerate(ety.under.fields):
                nm, so, fty = s.fieldcomp(run, ety, (i,))
                c = run.ensure_comp(st, nm, so)
                run.setcomp(st, nm, Sto(c, r, run.term(st, run.zero(f[1], st))), r)
            return HpP(run.mod.ty(ins["t"], {}), r, ety, ()) if False else TV(s.ptr(run, ety, ins), r)
        return None
    def ptr(s, run, ety, ins):
        t = load.Ty("ptr", "*" + ety.key); t.elem = ety; return t
    def param(s, run, st, ty, n, i):
        v = run.freshval(st, ty, n)
        return v
    # ---------------------------------------------------------------- contract language
    def spec_field(s, run, x, f, env):
        if x.ty is not None and x.ty.under.k == "ptr" and x.ty.under.elem.under.k == "struct":
            sty = x.ty.under.elem
            for i, fl in enumerate(sty.under.fields):
                if fl[0] == f:
                    nm, so, fty = s.fieldcomp(run, sty, (i,))
                    c = run.ensure_comp(env["state"], nm, so)
                    xt = run.svt(x, env)
                    if re.match(r"^[\w!]+$", xt): return SV(run.sort(fty), s.memo_field(run, c, xt, run.sort(fty), f), fty)
                    return SV(run.sort(fty), Sel(c, xt), fty)
        return super().spec_field(run, x, f, env)
    def relsyms(s, run):
        run.use_sort("Rel"); run.use_sort("S_K")
        run.fun("mem", ["Rel", "S_K", "S_K"], "Bool"); run.fun("reach", ["Rel", "S_K", "S_K"], "Bool")
        run.axiom("ax_reach", "(and (forall ((r Rel) (x S_K) (y S_K)) (! (=> (mem r x y) (reach r x y)) :pattern ((mem r x y))))"
            " (forall ((r Rel) (x S_K) (y S_K) (z S_K)) (! (=> (and (reach r x y) (reach r y z)) (reach r x z)) :pattern ((reach r x y) (reach r y z)))))")
    def rel(s, run, m, env):
        st = env["state"]; u = m.ty.under
        s.relsyms(run)
        d, v, ks, vs = run.mapcomps(m.ty); sd, sv, sks, svs = run.mapcomps(u.elem)
        a = run.mapdom(st, m.ty); b = run.mapval(st, m.ty); c = run.mapdom(st, u.elem)
        mt = run.svt(m, env)
        key = (a, b, c, mt)
        if key in s.rk: return s.rk[key]
        run.n += 1; r = "R!%d" % run.n
        run.decl("(declare-const %s Rel)" % r, "Rel")
        row = "(select %s (select (select %s %s) x))" % (c, b, mt)
        dm = "(select %s %s)" % (a, mt)
        run.reldefs[r] = ("(forall ((x S_K) (y S_K)) (! (= (mem %s x y) (and (select %s x) (select %s y))) :pattern ((mem %s x y)) :pattern ((select %s y)) ))" % (r, dm, row, r, row))
        s.rk[key] = r
        return r
    def spec_same(s, run, args, env, mode):
        a = run.ev(args[0], env, "both").t; b = run.ev(args[1], env, "both").t
        if a == b: return SV("Bool", "true")
        if mode == "assume": return SV("Bool", "(= %s %s)" % (a, b))
        run.n += 1; i = run.n
        return SV("Bool", "(forall ((x?%d S_K) (y?%d S_K)) (! (= (mem %s x?%d y?%d) (mem %s x?%d y?%d)) :pattern ((mem %s x?%d y?%d)) :pattern ((mem %s x?%d y?%d))))" % (i, i, a, i, i, b, i, i, a, i, i, b, i, i))
    def dist(s, run):
        s.relsyms(run); run.fun("dist", ["Rel", "S_K", "S_K"], "Int")
    def rcard(s, run):
        s.relsyms(run); run.fun("rcard", ["Rel", "S_K"], "Int")
        run.axiom("ax_rcard", "(forall ((r Rel) (x S_K)) (! (>= (rcard r x) 0) :pattern ((rcard r x))))")
    def chancomp(s, run, st, n):
        so = {"chn": "(Array Ref Int)", "chseq": "(Array Ref (Array Int S_K))", "chclosed": "(Array Ref Bool)", "chstop": "(Array Ref Bool)", "chrcv": "(Array Ref Int)"}[n]
        return run.ensure_comp(st, n, so)
    def spec_call(s, run, n, args, env, mode):
        E = lambda i: run.ev(args[i], env, "both")
        T = lambda i: run.svt(E(i), env)
        if n == "rel": return SV("Rel", s.rel(run, E(0), env))
        if n in ("mem", "reach"):
            s.relsyms(run); return SV("Bool", App(n, T(0), T(1), T(2)))
        if n == "indirect":     # defined: a first step and then a path (its witness is the only axiom)
            s.relsyms(run); run.fun("indirect", ["Rel", "S_K", "S_K"], "Bool"); run.fun("via", ["Rel", "S_K", "S_K"], "S_K")
            run.axiom("ax_indirect", "(and (forall ((r Rel) (x S_K) (y S_K)) (! (=> (indirect r x y) (and (mem r x (via r x y)) (reach r (via r x y) y))) :pattern ((indirect r x y))))"
                " (forall ((r Rel) (x S_K) (z S_K) (y S_K)) (! (=> (and (mem r x z) (reach r z y)) (indirect r x y)) :pattern ((mem r x z) (reach r z y)))))")
            return SV("Bool", App("indirect", T(0), T(1), T(2)))
        if n == "dist":
            s.dist(run); return SV("Int", App("dist", T(0), T(1), T(2)))
        if n == "box":
            x = E(0); v = TV(x.ty, run.svt(x, env))
            return SV("Iface", s.iface_term(run, env["state"], IfV(None, x.ty, v)))
        if n == "apply":
            f = T(0); x = E(1); xt = run.svt(x, env); fn = run.fun("apply_" + x.sort, ["Fn", x.sort], "Bool")
            return SV("Bool", App(fn, f, xt))
        if n == "elems":
            x = E(0)
            if x.sort == "Slice":
                if x.v.bid is None:
                    es = run.sort(x.ty.under.elem); return SV("(Array %s Bool)" % es, "((as const (Array %s Bool)) false)" % es)
                b = env["state"].backs[x.v.bid]
                return SV("(Array %s Bool)" % b.esort, s.elems(run, b.esort, b.content, x.v.off, T(1) if len(args) > 1 else x.v.ln))
            return SV("(Array S_K Bool)", s.elems(run, "S_K", run.svt(x, env), "0", T(1)))
        if n in ("finseq", "finlen", "finstop", "served", "chcap"):
            so = {"finseq": "(Array Int S_K)", "finlen": "Int", "finstop": "Bool", "served": "Bool", "chcap": "Int"}[n]
            run.fun(n, ["Ref"], so); return SV(so, App(n, T(0)), run.spec_sort("K", env)[1] if n == "finseq" else None)
        if n in ("chn", "chseq", "chclosed", "chstop", "chrcv"):
            c = s.chancomp(run, env["state"], n)
            so = {"chn": "Int", "chseq": "(Array Int S_K)", "chclosed": "Bool", "chstop": "Bool", "chrcv": "Int"}[n]
            return SV(so, Sel(c, T(0)), run.spec_sort("K", env)[1] if n == "chseq" else None)
        if n == "newslice":
            x = E(0); return SV("Bool", "true" if x.v.bid is None or env["state"].backs[x.v.bid].fresh else "false")
        if n == "rcard":        # how many vertices are reached from x
            s.rcard(run); return SV("Int", App("rcard", T(0), T(1)))
        if n == "ecount":
            s.relsyms(run); run.fun("esum", ["Rel", "(Array S_K Bool)"], "Int")
            run.axiom("ax_esum", "(forall ((r Rel)) (! (= (esum r ((as const (Array S_K Bool)) false)) 0) :pattern ((esum r ((as const (Array S_K Bool)) false)))))")
            return SV("Int", App("esum", T(0), T(1)))
        if n == "empty": 
            return SV("(Array S_K Bool)", "((as const (Array S_K Bool)) false)")
        return None
    # ---------------------------------------------------------------- lemmas (proved in lemmas/Reach.lean)
    def lemma(s, run, u, env):
        if u[0] != "call": raise Unsupported("lemma")
        n, args = u[1], u[2]
        if n in ("atloops", "atcalls", "atgo"): return []
        if n == "imp": pass
        T = [run.svt(run.ev(a, env, "both"), env) for a in args]
        s.relsyms(run)
        run.usedlemmas = getattr(run, "usedlemmas", set()); run.usedlemmas.add(n)
        if n == "local":        # reachability from x depends on the edges out of x and of what x reaches
            a, b = T
            run.fun("lwa", ["Rel", "Rel", "S_K"], "S_K"); run.fun("lwb", ["Rel", "Rel", "S_K"], "S_K")
            w = "(lwa %s %s x)" % (a, b); v = "(lwb %s %s x)" % (a, b)
            return ["(forall ((x S_K) (y S_K)) (! (or (= (reach {a} x y) (reach {b} x y)) (and (or (= {w} x) (reach {a} x {w})) (not (= (mem {a} {w} {v}) (mem {b} {w} {v}))))) :pattern ((reach {a} x y)) :pattern ((reach {b} x y))))".format(a=a, b=b, w=w, v=v)]
        if n == "ext":          # a relation is determined by its members
            a, b = T
            if a == b: return []
            run.fun("extx", ["Rel", "Rel"], "S_K"); run.fun("exty", ["Rel", "Rel"], "S_K")
            return ["(or (= {a} {b}) (not (= (mem {a} (extx {a} {b}) (exty {a} {b})) (mem {b} (extx {a} {b}) (exty {a} {b})))))".format(a=a, b=b)]
        if n == "mono":
            a, b = T
            return ["(=> (forall ((x S_K) (y S_K)) (! (=> (mem {a} x y) (mem {b} x y)) :pattern ((mem {a} x y)))) (forall ((x S_K) (y S_K)) (! (=> (reach {a} x y) (reach {b} x y)) :pattern ((reach {a} x y)))))".format(a=a, b=b)]
        if n == "conv":
            a, b = T
            return ["(=> (forall ((x S_K) (y S_K)) (= (mem {a} x y) (mem {b} y x))) (forall ((x S_K) (y S_K)) (! (= (reach {a} x y) (reach {b} y x)) :pattern ((reach {a} x y)) :pattern ((reach {b} y x)))))".format(a=a, b=b)]
        if n == "addedge":      # b = a + (p, q)
            a, b, p, q = T
            return ["(=> (forall ((x S_K) (y S_K)) (= (mem {b} x y) (or (mem {a} x y) (and (= x {p}) (= y {q}))))) (forall ((x S_K) (y S_K)) (! (= (reach {b} x y) (or (reach {a} x y) (and (or (= x {p}) (reach {a} x {p})) (or (= y {q}) (reach {a} {q} y))))) :pattern ((reach {b} x y)))))".format(a=a, b=b, p=p, q=q)]
        if n == "unfold":       # first step of a path from x
            a, x = T
            run.fun("step", ["Rel", "S_K", "S_K"], "S_K")
            w = "(step %s %s y)" % (a, x)
            return ["(forall ((y S_K)) (! (=> (reach {a} {x} y) (and (mem {a} {x} {w}) (or (= {w} y) (reach {a} {w} y)))) :pattern ((reach {a} {x} y))))".format(a=a, x=x, w=w)]
        if n == "ends":         # a path ends with an edge
            a, = T
            run.fun("laststep", ["Rel", "S_K", "S_K"], "S_K"); run.fun("firststep", ["Rel", "S_K", "S_K"], "S_K")
            return ["(forall ((x S_K) (y S_K)) (! (=> (reach {a} x y) (and (mem {a} (laststep {a} x y) y) (mem {a} x (firststep {a} x y)))) :pattern ((reach {a} x y))))".format(a=a)]
        if n == "distance":
            a, x = T
            s.dist(run); run.fun("predd", ["Rel", "S_K", "S_K"], "S_K")
            w = "(predd %s %s y)" % (a, x)
            return ["(forall ((y S_K)) (! (=> (reach {a} {x} y) (and (>= (dist {a} {x} y) 1) (= (= (dist {a} {x} y) 1) (mem {a} {x} y)))) :pattern ((dist {a} {x} y))))".format(a=a, x=x),
                    "(forall ((y S_K)) (! (=> (mem {a} {x} y) (= (dist {a} {x} y) 1)) :pattern ((mem {a} {x} y))))".format(a=a, x=x),
                    "(forall ((y S_K) (z S_K)) (! (=> (and (reach {a} {x} y) (mem {a} y z)) (<= (dist {a} {x} z) (+ (dist {a} {x} y) 1))) :pattern ((mem {a} y z) (dist {a} {x} y)) ))".format(a=a, x=x),
                    "(forall ((y S_K)) (! (=> (and (reach {a} {x} y) (>= (dist {a} {x} y) 2)) (and (mem {a} {w} y) (reach {a} {x} {w}) (= (+ (dist {a} {x} {w}) 1) (dist {a} {x} y)))) :pattern ((dist {a} {x} y))))".format(a=a, x=x, w=w)]
        if n == "cut":          # (rel, start, visited, frontier)
            a, x, S, Q = T
            s.dist(run); so = "(Array S_K Bool)"
            run.fun("cutw", ["Rel", "S_K", so, so, "S_K"], "S_K"); run.fun("cuta", ["Rel", "S_K", so, so], "S_K"); run.fun("cutb", ["Rel", "S_K", so, so], "S_K")
            w = "(cutw %s %s %s %s y)" % (a, x, S, Q); p = "(cuta %s %s %s %s)" % (a, x, S, Q); q = "(cutb %s %s %s %s)" % (a, x, S, Q)
            # either some edge leaves {x} or visited-but-not-frontier without being visited, or every unvisited y has a nearer frontier vertex
            return ["(or (and (or (= {p} {x}) (and (select {S} {p}) (not (select {Q} {p})))) (mem {a} {p} {q}) (not (select {S} {q})))"
                    " (forall ((y S_K)) (! (=> (and (reach {a} {x} y) (not (select {S} y))) (and (select {Q} {w}) (reach {a} {x} {w}) (< (dist {a} {x} {w}) (dist {a} {x} y)))) :pattern ((reach {a} {x} y)) :pattern ((select {S} y)))))".format(a=a, x=x, S=S, Q=Q, w=w, p=p, q=q)]
        if n == "root":         # finite and acyclic: everything is a source or reached from one
            a, S = T            # S only says which vertices to look at
            run.fun("rootof", ["Rel", "S_K"], "S_K"); run.fun("cyc", ["Rel"], "S_K")
            return ["(or (reach {a} (cyc {a}) (cyc {a})) (forall ((y S_K)) (! (and (or (= (rootof {a} y) y) (reach {a} (rootof {a} y) y)) (forall ((z S_K)) (! (not (mem {a} z (rootof {a} y))) :pattern ((mem {a} z (rootof {a} y)))))) :pattern ((rootof {a} y)) :pattern ((select {S} y)))))".format(a=a, S=S)]
        if n == "below":        # acyclic: a vertex reaches fewer than one before it does
            a, = T
            s.rcard(run); run.fun("cyc", ["Rel"], "S_K")
            return ["(or (reach {a} (cyc {a}) (cyc {a})) (forall ((x S_K) (y S_K)) (! (=> (mem {a} x y) (< (rcard {a} y) (rcard {a} x))) :pattern ((mem {a} x y)))))".format(a=a)]
        if n == "room":         # (rel, start, q, n): n different vertices of a finite set are no more than the set has
            a, x, q, k = T
            s.rcard(run); so = "(Array Int S_K)"
            for f in ("rmi", "rmj", "rmk"): run.fun(f, ["Rel", "S_K", so, "Int"], "Int")
            i, j, m = ("(%s %s %s %s %s)" % (f, a, x, q, k) for f in ("rmi", "rmj", "rmk"))
            return ["(or (and (<= 0 {i}) (< {i} {j}) (< {j} {n}) (= (select {q} {i}) (select {q} {j}))) (and (<= 0 {m}) (< {m} {n}) (not (reach {a} {x} (select {q} {m})))) (<= {n} (rcard {a} {x})))".format(a=a, x=x, q=q, n=k, i=i, j=j, m=m)]
        if n == "closed":       # a set closed under edges is closed under paths
            a, S = T
            run.fun("clx", ["Rel", "(Array S_K Bool)"], "S_K"); run.fun("cly", ["Rel", "(Array S_K Bool)"], "S_K")
            x = "(clx %s %s)" % (a, S); y = "(cly %s %s)" % (a, S)
            return ["(or (and (select {S} {x}) (mem {a} {x} {y}) (not (select {S} {y}))) (forall ((p S_K) (q S_K)) (! (=> (and (select {S} p) (reach {a} p q)) (select {S} q)) :pattern ((reach {a} p q)))))".format(a=a, S=S, x=x, y=y)]
        if n == "reduce":       # b = the finite acyclic relation a without its indirect edges
            a, b = T
            run.fun("indirect", ["Rel", "S_K", "S_K"], "Bool")
            run.fun("cyc", ["Rel"], "S_K"); run.fun("redx", ["Rel", "Rel"], "S_K"); run.fun("redy", ["Rel", "Rel"], "S_K")
            x = "(redx %s %s)" % (a, b); y = "(redy %s %s)" % (a, b)
            # a has a cycle, or b has an edge not in a, or an a-edge missing from b is not indirect, or reachability agrees
            return ["(or (reach {a} (cyc {a}) (cyc {a})) (and (mem {b} {x} {y}) (not (mem {a} {x} {y}))) (and (mem {a} {x} {y}) (not (mem {b} {x} {y})) (not (indirect {a} {x} {y})))"
                    " (forall ((x S_K) (y S_K)) (! (= (reach {a} x y) (reach {b} x y)) :pattern ((reach {a} x y)) :pattern ((reach {b} x y)))))".format(a=a, b=b, x=x, y=y)]
        if n == "esum":         # sum of row sizes
            a, = T
            return []
        raise Unsupported("unknown lemma " + n)
    # ---------------------------------------------------------------- calls
    def alloc_comps(s, run, kind, env):
        k = env.get("T") if kind.startswith("set") and "K" not in env and "T" in env else env.get("K")
        ks = run.sort(k) if k is not None else ("S_T" if kind == "set!" else "S_K")
        if kind == "set":
            # in the contracts of Set the element type is named T
            return [("dom_%s_%s" % (ks, ks), "(Array Ref (Array %s Bool))" % ks), ("val_%s_%s" % (ks, ks), "(Array Ref (Array %s %s))" % (ks, ks))]
        ts = run.sort(env["T"]) if "T" in env else "S_T"
        if kind == "tmap": return [("dom_%s_%s" % (ks, ts), "(Array Ref (Array %s Bool))" % ks), ("val_%s_%s" % (ks, ts), "(Array Ref (Array %s %s))" % (ks, ts))]
        if kind == "emap": return [("dom_%s_Ref" % ks, "(Array Ref (Array %s Bool))" % ks), ("val_%s_Ref" % ks, "(Array Ref (Array %s Ref))" % ks)]
        if kind == "graph":
            return [("F_AcyclicGraph_" + f, "(Array Ref Ref)") for f in ("vertices", "inboundEdges", "outboundEdges", "ancestorsCache", "descendantsCache")]
        if kind == "caches":
            return [("F_AcyclicGraph_" + f, "(Array Ref Ref)") for f in ("ancestorsCache", "descendantsCache")]
        if kind == "chan":
            return [("chn", "(Array Ref Int)"), ("chseq", "(Array Ref (Array Int S_K))"), ("chclosed", "(Array Ref Bool)"), ("chstop", "(Array Ref Bool)")]
        raise Unsupported("component kind " + kind)
    def call_unknown(s, run, fr, ins, st, f, args, cont):
        # a caller-supplied predicate: assumed to be a function of its argument without side effects
        run.assumes.add("callbacks passed by the caller are pure, terminating functions")
        x = args[0]; xt = run.term(st, x); so = run.sort(x.ty)
        fn = run.fun("apply_" + so, ["Fn", so], "Bool")
        cont(st, TV(run.mod.ty(ins["t"], fr.env), App(fn, f.t, xt)))
    def struct_term(s, run, st, v): raise Unsupported("struct as a term")
    def locp_term(s, run, st, v):
        return run.fresh("Ref", "loc")
    # ---------------------------------------------------------------- channels
    def isstop(s, ty):
        return ty.under.elem.under.k == "basic"
    def make_chan(s, run, fr, ins, st):
        ty = run.mod.ty(ins["t"], fr.env)
        r = run.alloc(st, "chan")
        run.fun("chcap", ["Ref"], "Int")
        st.pc.append("(= (chcap %s) %s)" % (r, run.term(st, run.operand(fr, st, ins["size"]))))
        for n, z in (("chn", "0"), ("chclosed", "false"), ("chstop", "false"), ("chrcv", "0")):
            c = s.chancomp(run, st, n); run.setcomp(st, n, Sto(c, r, z), r)
        st.chans = st.chans + [(r, ty)]
        return TV(ty, r)
    D08 = ("D08",)
    def select(s, run, fr, ins, st, k):
        states = ins["states"]; chs = [(run.operand(fr, st, c["ch"]), c) for c in states]
        nrecv = sum(1 for _, c in chs if c["dir"] == 2)
        rty = []
        def result(idx, ok, vals): return TupV([TV(None, num(idx)), TV(None, ok)] + vals)
        def zeros(): return [run.zero(ch.ty.under.elem, st) for ch, c in chs if c["dir"] == 2]
        stops = [ch for ch, c in chs if c["dir"] == 2 and s.isstop(ch.ty)]
        for idx, (ch, c) in enumerate(chs):
            a = st.fork(); a.trace.append("select@%s:%d" % (ins["pos"], idx))
            if c["dir"] == 2:
                if not s.isstop(ch.ty): raise Unsupported("select receives from a delivery channel")
                cs = s.chancomp(run, a, "chstop"); run.setcomp(a, "chstop", Sto(cs, ch.t, "true"), ch.t)
                vals = []; j = 0
                for ch2, c2 in chs:
                    if c2["dir"] == 2:
                        vals.append(TV(ch2.ty.under.elem, run.fresh("Bool", "got")) if ch2 is ch else run.zero(ch2.ty.under.elem, a))
                k(a, result(idx, run.fresh("Bool", "rok"), vals))
            else:
                v = run.operand(fr, a, c["send"])
                if not stops or not ins["blocking"]:
                    run.oblige(a, "a blocking delivery also listens for the stop request", "false" if not stops else "true", s.D08, "chan", pos=ins["pos"])
                s.do_send(run, a, ch, v, stops, ins)
                k(a, result(idx, "false", zeros()))
        if not ins["blocking"]:
            st.trace.append("select@%s:default" % ins["pos"])
            k(st, result(-1, "false", zeros()))
    def do_send(s, run, st, ch, v, stops, ins):
        if s.isstop(ch.ty):
            run.oblige(st, "never sends on the stop channel", "false", s.D08, "chan", pos=ins["pos"]); return
        run.oblige(st, "send on a channel that is not closed", Not(Sel(s.chancomp(run, st, "chclosed"), ch.t)), s.D08, "chan", pos=ins["pos"])
        for x in stops:
            run.oblige(st, "delivers nothing once the stop request has been seen", Not(Sel(s.chancomp(run, st, "chstop"), x.t)), s.D08, "chan", pos=ins["pos"])
        q = s.chancomp(run, st, "chseq"); n = s.chancomp(run, st, "chn")
        vt = run.term(st, v)
        n0 = run.define(st, "Int", Sel(n, ch.t), "n0"); q0 = run.define(st, "(Array Int S_K)", Sel(q, ch.t), "q0")
        q1 = run.define(st, "(Array Int S_K)", Sto(q0, n0, vt) + " ", "q1")
        st.pc.append("(= %s %s)" % (s.elems(run, "S_K", q1, "0", "(+ %s 1)" % n0), Sto(s.elems(run, "S_K", q0, "0", n0), vt, "true")))
        run.setcomp(st, "chseq", Sto(q, ch.t, q1), ch.t)
        run.setcomp(st, "chn", Sto(n, ch.t, "(+ %s 1)" % n0), ch.t)
    def send(s, run, fr, ins, st):
        ch = run.operand(fr, st, ins["ch"])
        run.oblige(st, "a blocking delivery also listens for the stop request" if not s.isstop(ch.ty) else "never sends on the stop channel", "false", s.D08, "chan", pos=ins["pos"])
        if not s.isstop(ch.ty): s.do_send(run, st, ch, run.operand(fr, st, ins["v"] if "v" in ins else ins["x"]), [], ins)
    def recv(s, run, fr, ins, st, k):
        ch = run.operand(fr, st, ins["x"]); ety = ch.ty.under.elem
        if s.isstop(ch.ty):
            run.oblige(st, "does not wait for the stop request alone", "false", s.D08, "chan", pos=ins["pos"])
            return
        for f, so in (("served", "Bool"), ("finseq", "(Array Int S_K)"), ("finlen", "Int")): run.fun(f, ["Ref"], so)
        run.oblige(st, "receives from a channel that a walker serves", App("served", ch.t), run.tags_safety(), "chan", pos=ins["pos"])
        rc = s.chancomp(run, st, "chrcv"); i = run.define(st, "Int", Sel(rc, ch.t), "i")
        a = st.fork(); a.trace.append("recv@%s" % ins["pos"])
        a.pc += ["(<= 0 %s)" % i, "(< %s (finlen %s))" % (i, ch.t)]
        v = run.unterm(a, ety, run.define(a, run.sort(ety), "(select (finseq %s) %s)" % (ch.t, i), "rv"))
        run.setcomp(a, "chrcv", Sto(rc, ch.t, "(+ %s 1)" % i), ch.t)
        k(a, TupV([v, TV(None, "true")]) if ins.get("commaok") else v)
        st.trace.append("closed@%s" % ins["pos"])
        st.pc.append("(= %s (finlen %s))" % (i, ch.t))
        z = run.zero(ety, st)
        k(st, TupV([z, TV(None, "false")]) if ins.get("commaok") else z)
    def close(s, run, fr, ins, st, ch):
        if s.isstop(ch.ty):
            run.oblige(st, "never closes the stop channel", "false", s.D08, "chan", pos=ins["pos"]); return None
        c = s.chancomp(run, st, "chclosed")
        run.oblige(st, "closes the delivery channel at most once", And(Not(Sel(c, ch.t)), Not(Eq(ch.t, "nil"))), s.D08, "chan", pos=ins["pos"])
        run.setcomp(st, "chclosed", Sto(c, ch.t, "true"), ch.t)
        return None
    def go(s, run, fr, ins, st):
        c = ins["call"]
        f = run.operand(fr, st, c["fn"]); args = [run.operand(fr, st, a) for a in c["args"]]
        a = st.fork(); a.trace.append("go")
        before = st.fork()
        deliv = [(r, ty) for r, ty in st.chans if not s.isstop(ty)]; stops = [r for r, ty in st.chans if s.isstop(ty)]
        def clauses(state, seq, n, stop, mode, ch):
            out = []
            if run.c:
                for lab, tags, e in run.c.delivers:
                    env = run.env(state); kty = run.spec_sort("K", env)[1]
                    env["names"]["q"] = SV("(Array Int S_K)", seq, kty); env["names"]["n"] = SV("Int", n); env["names"]["stop"] = SV("Bool", stop)
                    for u in run.c.uses:
                        if u[0] == "call" and u[1] == "atgo": out += [("use", (), t) for t in run.use(u[2][0], env)]
                    for l2, g in run.ev_clauses(e, env, mode, lab): out.append((l2, tags, g))
            return out
        def end(st2, v):
            if run.dry: return
            for r, ty in deliv:
                cl = s.chancomp(run, st2, "chclosed")
                run.oblige(st2, "the delivery channel is closed when the walk ends", Sel(cl, r), s.D08, "chan", pos=ins["pos"])
                stop = Or(*[Sel(s.chancomp(run, st2, "chstop"), x) for x in stops])
                cs = clauses(st2, Sel(s.chancomp(run, st2, "chseq"), r), Sel(s.chancomp(run, st2, "chn"), r), stop, "prove", r)
                uses = [g for l, _, g in cs if l == "use"]; pend = run.pending()
                for l, tags, g in cs:
                    if l != "use": run.oblige(st2, "delivers " + l, g, tags, "post", pos=ins["pos"], extra=pend + uses)
            for name, (so, e0) in sorted(run.model_comps.items()):
                if name.startswith("ch"): continue
                b = before.comps.get(name, e0); cur = st2.comps.get(name, e0)
                if b == cur: continue
                q = run.fresh("Ref", "r")
                run.oblige(st2, "a walk writes nothing but its own channels: " + name, "(= (select %s %s) (select %s %s))" % (cur, q, b, q), ("D10", "D08"), "frame", pos=ins["pos"], extra=["(< (birth %s) %s)" % (q, before.now)])
        run.call_value(fr, ins, a, f, args, end)
        # the caller continues: what the channel will have carried when it is closed
        for f2, so in (("served", "Bool"), ("finseq", "(Array Int S_K)"), ("finlen", "Int"), ("finstop", "Bool")): run.fun(f2, ["Ref"], so)
        for r, ty in deliv:
            st.pc.append("(served %s)" % r)
            cs = clauses(st, "(finseq %s)" % r, "(finlen %s)" % r, "(finstop %s)" % r, "assume", r)
            st.pc += run.pending() + [g for l, _, g in cs]
        if isinstance(f, CloV):
            for b in f.binds:
                if isinstance(b, LocP): st.pub.add(b.oid)
        return None
    def after_call(s, run, st, c, names, res, env, fr, ins):
        # nobody can ask a walk to stop when the caller drops the stop channel
        for v in res:
            if isinstance(v, TV) and v.ty is not None and v.ty.under.k == "chan" and s.isstop(v.ty):
                i = res.index(v); used = False
                for b in fr.fn["blocks"]:
                    for x in b["instrs"]:
                        if x["op"] == "Extract" and x["x"].get("n") == ins.get("r") and x["idx"] == i and x.get("nref", 1) > 0: used = True
                if not used:
                    for w in res:
                        if isinstance(w, TV) and w.ty is not None and w.ty.under.k == "chan" and not s.isstop(w.ty):
                            run.fun("finstop", ["Ref"], "Bool"); st.pc.append(Not("(finstop %s)" % w.t))
    def next_fact(s, run, st, I, nd, kk):
        if run.sort(I.ty.under.elem) == "Ref" and I.ks == "S_K":
            env = run.env(st); r = s.rel(run, SV("Ref", I.m.t, I.ty), env)
            run.fun("esum", ["Rel", "(Array S_K Bool)"], "Int")
            row = Sel(run.mapdom(st, I.ty.under.elem), Sel(Sel(run.mapval(st, I.ty), I.m.t), kk))
            st.pc.append("(= (esum %s %s) (+ (esum %s %s) %s))" % (r, nd, r, I.done, run.card(st, "S_K", row)))
    def append_facts(s, run, st, es, content, x, xb, y, yb):
        if not s.track(es): return
        ea = s.elems(run, es, xb.content, x.off, x.ln) if xb is not None else "((as const (Array %s Bool)) false)" % es
        eb = s.elems(run, es, yb.content, y.off, y.ln)
        en = s.elems(run, es, content, "0", Add(x.ln, y.ln))
        st.pc.append("(forall ((x %s)) (! (= (select %s x) (or (select %s x) (select %s x))) :pattern ((select %s x))))" % (es, en, ea, eb, en))
