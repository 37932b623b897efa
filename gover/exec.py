"""Verification condition generator: path-wise symbolic execution of Go SSA,
cut at loop headers by invariants and at calls by contracts.

Integers are mathematical; len/cap/index arithmetic cannot overflow for
objects that fit in memory (stated in the evidence)."""
import re
from smt import *
import load, spec

class Unsupported(Exception): pass

# ---------------------------------------------------------------- values
class TV:                       # scalar: an SMT term
    __slots__ = ("ty", "t")
    def __init__(s, ty, t): s.ty = ty; s.t = t
class StrV:                     # string: list of ("lit", s) / ("t", term)
    __slots__ = ("p", "ty")
    def __init__(s, p, ty=None):
        o = []
        for k, v in p:
            if k == "lit" and v == "": continue
            if o and o[-1][0] == "lit" and k == "lit": o[-1] = ("lit", o[-1][1] + v)
            else: o.append((k, v))
        s.p = o; s.ty = ty
    def lit(s):
        if not s.p: return ""
        if len(s.p) == 1 and s.p[0][0] == "lit": return s.p[0][1]
        return None
    def term(s):
        ts = [smtstr(v) if k == "lit" else v for k, v in s.p]
        if not ts: return '""'
        return ts[0] if len(ts) == 1 else "(str.++ %s)" % " ".join(ts)
def strcat(a, b): return StrV(a.p + b.p, a.ty)
class SlV:                      # slice
    __slots__ = ("ty", "bid", "off", "ln", "nilt", "sl")
    def __init__(s, ty, bid, off, ln, nilt, sl=None): s.ty = ty; s.bid = bid; s.off = off; s.ln = ln; s.nilt = nilt; s.sl = sl
class StV:                      # struct value
    __slots__ = ("ty", "f")
    def __init__(s, ty, f): s.ty = ty; s.f = f
class ArrV:                     # array value (fixed length)
    __slots__ = ("ty", "f")
    def __init__(s, ty, f): s.ty = ty; s.f = f
class TupV:
    __slots__ = ("v",)
    def __init__(s, v): s.v = v
class LocP:                     # pointer into an object allocated here
    __slots__ = ("ty", "oid", "path")
    def __init__(s, ty, oid, path=()): s.ty = ty; s.oid = oid; s.path = path
class HpP:                      # pointer to (a field of) a heap object
    __slots__ = ("ty", "ref", "sty", "path")
    def __init__(s, ty, ref, sty, path=()): s.ty = ty; s.ref = ref; s.sty = sty; s.path = path
class BackP:
    __slots__ = ("ty", "bid", "idx")
    def __init__(s, ty, bid, idx): s.ty = ty; s.bid = bid; s.idx = idx
class GlobP:
    __slots__ = ("ty", "n")
    def __init__(s, ty, n): s.ty = ty; s.n = n
class CloV:
    __slots__ = ("ty", "fn", "env", "binds")
    def __init__(s, ty, fn, env, binds): s.ty = ty; s.fn = fn; s.env = env; s.binds = binds
class FnV:
    __slots__ = ("ref",)
    def __init__(s, ref): s.ref = ref
class IfV:                      # interface value of known dynamic type
    __slots__ = ("ty", "dyn", "v")
    def __init__(s, ty, dyn, v): s.ty = ty; s.dyn = dyn; s.v = v
class IterV:
    __slots__ = ("iid",)
    def __init__(s, iid): s.iid = iid
class MapV:                     # concretely known local map (constant keys)
    __slots__ = ("ty", "oid")
    def __init__(s, ty, oid): s.ty = ty; s.oid = oid

class Backing:
    __slots__ = ("content", "hw", "fresh", "shared", "esort", "ety", "pub", "conc")
    def __init__(s, content, hw, fresh, esort, ety, shared=False, pub=False):
        s.content = content; s.hw = hw; s.fresh = fresh; s.shared = shared; s.esort = esort; s.ety = ety; s.pub = pub; s.conc = None
    def copy(s):
        b = Backing(s.content, s.hw, s.fresh, s.esort, s.ety, s.shared, s.pub); b.conc = s.conc; return b

class Iter:
    __slots__ = ("m", "ks", "done", "dom0", "key", "ty", "frame", "reg", "cur")
    def __init__(s, m, ks, done, dom0, ty, frame, reg):
        s.m = m; s.ks = ks; s.done = done; s.dom0 = dom0; s.ty = ty; s.frame = frame; s.reg = reg; s.cur = None
    def copy(s):
        c = Iter(s.m, s.ks, s.done, s.dom0, s.ty, s.frame, s.reg); c.cur = s.cur; return c

class CandTerm(str):            # an assumption that comes from an invariant candidate
    def __new__(cls, t, cand):
        o = str.__new__(cls, t); o.cand = cand; return o

class BrTerm(str): pass         # an assumption that a branch was taken

class State:
    def __init__(s):
        s.regs = {}; s.pc = []; s.comps = {}; s.objs = {}; s.objref = {}; s.backs = {}; s.iters = {}
        s.now = None; s.pub = set(); s.loops = {}; s.writes = []; s.trace = []; s.maps = []; s.ints = []; s.objty = {}; s.chans = []
        s.stopped = None; s.memo = {}
    def fork(s):
        n = State()
        n.regs = {k: dict(v) for k, v in s.regs.items()}
        n.pc = list(s.pc); n.comps = dict(s.comps); n.objs = dict(s.objs); n.objref = dict(s.objref)
        n.backs = {k: v for k, v in s.backs.items()}; n.iters = dict(s.iters); n.now = s.now; n.pub = set(s.pub)
        n.loops = dict(s.loops); n.writes = list(s.writes); n.trace = list(s.trace); n.maps = list(s.maps); n.ints = list(s.ints)
        n.objty = dict(s.objty); n.chans = list(s.chans); n.memo = dict(s.memo)
        return n

class Frame:
    def __init__(s, fid, fn, env, path, depth): s.fid = fid; s.fn = fn; s.env = env; s.path = path; s.depth = depth

class SV:                       # value in the contract language
    __slots__ = ("sort", "t", "ty", "v")
    def __init__(s, sort, t, ty=None, v=None): s.sort = sort; s.t = t; s.ty = ty; s.v = v

class Oblig:
    __slots__ = ("fn", "name", "tags", "pc", "goal", "kind", "path", "cand", "result", "backend", "secs", "pos", "out", "base", "core", "key", "alt")
    def __init__(s, fn, name, tags, pc, goal, kind, path, cand=None, pos="", base=None):
        s.base = len(pc) if base is None else base; s.core = None; s.key = None; s.alt = None
        s.fn = fn; s.name = name; s.tags = tags; s.pc = pc; s.goal = goal; s.kind = kind; s.path = path; s.cand = cand
        s.result = None; s.backend = None; s.secs = 0.0; s.pos = pos; s.out = ""

def subst(e, m):
    """Substitutes expressions for names in a contract expression."""
    if not isinstance(e, tuple): return e
    if e[0] == "var": return m.get(e[1], e)
    if e[0] in ("forall", "exists"):
        m2 = {k: v for k, v in m.items() if k not in [b[0] for b in e[1]]}
        return (e[0], e[1], [[subst(p, m2) for p in ps] for ps in e[2]], subst(e[3], m2))
    if e[0] == "call": return ("call", e[1], [subst(a, m) for a in e[2]])
    if e[0] == "field": return ("field", subst(e[1], m), e[2])
    if e[0] in ("num", "str"): return e
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in e)
def disjuncts(e):
    return disjuncts(e[1]) + disjuncts(e[2]) if e[0] == "or" else [e]

def short(name):
    """(*pkg.AcyclicGraph[K, T]).AddEdge -> AcyclicGraph.AddEdge"""
    n = re.sub(r"\[[^\]]*\]", "", name)
    m = re.match(r"^\(\*?(.*)\)\.(.*)$", n)
    if m: return m.group(1).rsplit("/", 1)[-1].split(".", 1)[-1] + "." + m.group(2)
    return n.rsplit("/", 1)[-1].split(".", 1)[-1]

PRELUDE = """(declare-sort Ref 0)
(declare-sort Iface 0)
(declare-sort Fn 0)
(declare-const nil Ref)
(declare-const nilI Iface)
(declare-const nilF Fn)
(declare-fun birth (Ref) Int)
(assert (= (birth nil) (- 1)))
"""

class Run:
    """Verification of one function against its contract."""
    MAXDEPTH = 12
    def __init__(s, mod, sp, fname, model):
        s.mod = mod; s.sp = sp; s.fname = fname; s.model = model
        s.fn = mod.funcs[fname]; s.c = sp.contracts.get(short(fname))
        s.n = 0; s.decls = []; s.obs = []; s.dry = []; s.fidn = 0
        s.near = None; s.objname = {}; s.sorts = set(); s.funs = set(); s.cands = {}; s.dropped = set(); s.modcache = {}
        s.rels = {}; s.relinfo = {}; s.entry = None; s.usedmodels = set(); s.calls = set(); s.inlined = set()
        s.paths = 0; s.houdini_round = 0
        s.assumes = set(); s.covers = []; s.allow = None
        model.init(s)

    # ------------------------------------------------------------ symbols
    def fresh(s, sort, hint="v"):
        s.n += 1
        name = "%s!%d" % (re.sub(r"[^A-Za-z0-9_]", "_", hint), s.n)
        s.decl("(declare-const %s %s)" % (name, sort), sort); return name
    def decl(s, line, *sorts):
        for x in sorts: s.use_sort(x)
        s.decls.append(line)
    def use_sort(s, sort):
        for m in re.findall(r"\b(?:S|V)_[A-Za-z0-9_]+", sort):
            if m not in s.sorts: s.sorts.add(m); s.decls.append("(declare-sort %s 0)" % m)
        if re.search(r"\bSl\b", sort) and "Sl" not in s.sorts:
            s.sorts.add("Sl"); s.decls.append("(declare-sort Sl 0)")
        if re.search(r"\bRel\b", sort) and "Rel" not in s.sorts:
            s.sorts.add("Rel"); s.decls.append("(declare-sort Rel 0)")
    def fun(s, name, args, res):
        if name not in s.funs:
            s.funs.add(name)
            s.decl("(declare-fun %s (%s) %s)" % (name, " ".join(args), res), res, *args)
        return name
    def axiom(s, key, text):
        if key not in s.funs:
            s.funs.add(key); s.decls.append("(assert %s)" % text)
    def define(s, st, sort, term, hint="d"):
        if len(term) < 24 or re.match(r"^[\w!.$|]+$", term): return term
        c = s.fresh(sort, hint); st.pc.append("(= %s %s)" % (c, term)); return c
    def sort(s, ty):
        u = ty.under
        if ty.k == "tparam": return "S_" + ty.name
        if u.k == "tparam": return "S_" + u.name
        if u.k == "basic":
            n = u.name
            if n in ("bool", "untyped bool"): return "Bool"
            if n in ("string", "untyped string"): return "String"
            if n.startswith(("int", "uint", "untyped int", "untyped rune", "byte")): return "Int"
            if n.startswith(("float", "untyped float")): return "S_Float"
            if n == "untyped nil": return "Ref"
            return "S_" + re.sub(r"\W", "_", n)
        if u.k in ("ptr", "map", "chan"): return "Ref"
        if u.k == "iface": return "Iface"
        if u.k == "func": return "Fn"
        if u.k == "slice": return "Sl"
        if u.k == "struct": return "V_" + re.sub(r"\W", "_", ty.key.rsplit("/", 1)[-1].split(".")[-1] if ty.k == "named" else "anon%d" % (hash(ty.key) % 10**6))
        raise Unsupported("sort of type %s" % ty.key)
    def zero(s, ty, st=None):
        u = ty.under
        if u.k == "tparam" :
            nm = "zero_" + s.sort(ty); s.fun(nm, [], s.sort(ty)); return TV(ty, nm)
        so = None
        if u.k == "struct": return StV(ty, [s.zero(f[1], st) for f in u.fields])
        if u.k == "array": return ArrV(ty, [s.zero(u.elem, st) for _ in range(u.n)])
        if u.k == "slice": return SlV(ty, None, "0", "0", "true")
        if u.k == "tuple": return TupV([s.zero(e, st) for e in u.elems])
        so = s.sort(ty)
        if so == "Bool": return TV(ty, "false")
        if so == "Int": return TV(ty, "0")
        if so == "String": return StrV([], ty)
        if so == "Ref": return TV(ty, "nil")
        if so == "Iface": return TV(ty, "nilI")
        if so == "Fn": return TV(ty, "nilF")
        nm = "zero_" + so; s.fun(nm, [], so); return TV(ty, nm)

    def freshval(s, st, ty, hint="v", alloc=True):
        u = ty.under
        if u.k == "tuple": return TupV([s.freshval(st, e, hint, alloc) for e in u.elems])
        if u.k == "slice":
            es = s.sort(u.elem); bid = s.newback(st, s.fresh("(Array Int %s)" % es, hint + "_c"), None, False, es, u.elem)
            ln = s.fresh("Int", hint + "_len"); nl = s.fresh("Bool", hint + "_nil")
            st.pc += ["(>= %s 0)" % ln, "(=> %s (= %s 0))" % (nl, ln)]
            return SlV(ty, bid, "0", ln, nl)
        if u.k == "struct":
            if s.model.opaque_struct(ty): return TV(ty, s.fresh(s.sort(ty), hint))
            return StV(ty, [s.freshval(st, f[1], hint + "_" + f[0], alloc) for f in u.fields])
        so = s.sort(ty)
        c = s.fresh(so, hint)
        if so == "String": return StrV([("t", c)], ty)
        if so == "Ref" and alloc: st.pc.append("(< (birth %s) %s)" % (c, st.now))
        return TV(ty, c)

    def newback(s, st, content, hw, fresh, es, ety, shared=False):
        s.n += 1; bid = s.n
        st.backs[bid] = Backing(content, hw, fresh, es, ety, shared); return bid

    def alloc(s, st, hint="o"):
        r = s.fresh("Ref", hint)
        st.pc.append("(= (birth %s) %s)" % (r, st.now))
        st.now = Add(st.now, "1")
        return r

    # ------------------------------------------------------------ value <-> term
    def term(s, st, v):
        if isinstance(v, TV): return v.t
        if isinstance(v, StrV): return v.term()
        if isinstance(v, LocP): return s.model.locp_term(s, st, v)
        if isinstance(v, HpP): return s.model.hpp_term(s, st, v)
        if isinstance(v, IfV): return s.model.iface_term(s, st, v)
        if isinstance(v, SlV): return s.model.slice_term(s, st, v)
        if isinstance(v, StV): return s.model.struct_term(s, st, v)
        if isinstance(v, CloV): return "nilF" if False else s.fresh("Fn", "clo")
        if isinstance(v, FnV):
            return s.fun("fn_" + re.sub(r"\W", "_", v.ref["n"]), [], "Fn")
        raise Unsupported("value %s has no term" % type(v).__name__)
    def unterm(s, st, ty, t):
        """A value of Go type ty from an SMT term."""
        u = ty.under
        if u.k == "slice": return s.model.slice_unterm(s, st, ty, t)
        if u.k == "struct": return s.model.struct_unterm(s, st, ty, t)
        so = s.sort(ty)
        if so == "String": return StrV([("t", t)], ty)
        return TV(ty, t)

    # ------------------------------------------------------------ heap components
    def comp(s, st, name, sort):
        if name not in st.comps:
            raise Unsupported("component %s not initialised" % name)
        return st.comps[name]
    def compinfo(s): return s.model.comps

    def mapcomps(s, ty):
        u = ty.under
        ks = s.sort(u.mkey); vs = s.sort(u.elem)
        return ("dom_%s_%s" % (ks, vs), "val_%s_%s" % (ks, vs), ks, vs)
    def ensure_comp(s, st, name, sort):
        """Lazily introduces a component: its value at function entry."""
        if name not in s.model_comps:
            e = s.fresh(sort, name); s.model_comps[name] = (sort, e)
            if name.startswith("dom_"):
                s.decls.append("(assert (= (select %s nil) ((as const %s) false)))" % (e, sort[len("(Array Ref "):-1]))
        if name not in st.comps: st.comps[name] = s.model_comps[name][1]
        return st.comps[name]
    def mapdom(s, st, ty):
        d, v, ks, vs = s.mapcomps(ty)
        return s.ensure_comp(st, d, "(Array Ref (Array %s Bool))" % ks)
    def mapval(s, st, ty):
        d, v, ks, vs = s.mapcomps(ty)
        return s.ensure_comp(st, v, "(Array Ref (Array %s %s))" % (ks, vs))
    def setcomp(s, st, name, term, ref):
        sort = s.model_comps[name][0]
        c = s.fresh(sort, name)
        st.pc.append("(= %s %s)" % (c, term))
        st.comps[name] = c
        st.writes.append((name, ref))
    def havoc_comp(s, st, name, refs):
        """refs: list of refs written, or None for anything."""
        sort = s.model_comps[name][0]
        if refs is None:
            c = s.fresh(sort, name)
            if name.startswith("dom_"): st.pc.append("(= (select %s nil) ((as const %s) false))" % (c, sort[len("(Array Ref "):-1]))
            st.comps[name] = c
        else:
            t = st.comps[name]
            inner = sort[len("(Array Ref "):-1]
            for r in sorted(refs):
                t = Sto(t, r, s.fresh(inner, name + "_at"))
            c = s.fresh(sort, name); st.pc.append("(= %s %s)" % (c, t)); st.comps[name] = c

    def card(s, st, ks, dom):
        f = s.fun("card_" + ks, ["(Array %s Bool)" % ks], "Int")
        t = App(f, dom)
        empty = "((as const (Array %s Bool)) false)" % ks
        s.axiom("ax_" + f, "(forall ((d (Array %s Bool))) (! (and (>= (%s d) 0) (= (= (%s d) 0) (= d %s))) :pattern ((%s d))))" % (ks, f, f, empty, f))
        return t

    # ------------------------------------------------------------ obligations
    def oblige(s, st, name, goal, tags=(), kind="safety", cand=None, pos="", extra=()):
        if s.dry or not s.model.keeps(kind, name): return
        gs = conjuncts(goal)
        for i, g in enumerate(gs):
            pc = st.pc + list(extra) if g != "true" else []
            s.obs.append(Oblig(short(s.fname), name, tuple(tags), pc, g, kind, " ".join(st.trace), cand, pos, len(pc) - len(extra) if pc else 0))
    def ob(s, st, name, goal, fr, ins, tags=(), kind="safety"):
        """Safety obligation, then assumed."""
        s.oblige(st, name, goal, tags, kind, pos=ins.get("pos", ""))
        if goal != "true": st.pc.append(goal)

    # ------------------------------------------------------------ run
    def run(s):
        s.n = 0; s.decls = []; s.obs = []; s.sorts = set(); s.funs = set(); s.model_comps = {}; s.rels = {}; s.relinfo = {}; s.paths = 0
        s.fidn = 0; s.covers = []
        s.model.begin(s)
        st = State()
        now0 = s.fresh("Int", "now0"); s.decls.append("(assert (> %s 0))" % now0)
        st.now = now0; s.now0 = now0
        env = {}
        fr = s.newframe(s.fn, env, "")
        regs = {}
        s.penv = {}
        names = s.c.params if s.c else []
        for i, p in enumerate(s.fn["params"]):
            ty = s.mod.ty(p["t"], env)
            v = s.model.param(s, st, ty, p["n"], i)
            regs[p["n"]] = v
            nm = names[i] if i < len(names) else p["n"]
            s.penv[nm] = s.sv(st, v, ty)
        st.regs[fr.fid] = regs
        s.entry = st.fork()
        s.entry.comps = st.comps      # shared: lazily created components appear at entry too
        s.entry = s.snapshot(st)
        if s.c is not None and hasattr(s.c, "pre"):
            s.entryargs = [regs[p["n"]] for p in s.fn["params"]]
            for lab, t in s.c.pre(s, st, s.entryargs, "assume"): st.pc.append(t)
            s.covers.append(("requires", list(st.pc)))
        elif s.c:
            for lab, tags, e in s.c.requires:
                t = s.ev_bool(e, s.env(st), "assume")
                st.pc.append(t)
            st.pc += s.pending(); 
            s.covers.append(("requires", list(st.pc)))
        s.model.entry(s, st)
        try:
            s.exec_block(fr, 0, None, st, lambda st2, res, ins: s.finish(fr, st2, res, ins))
        except RecursionError:
            raise Unsupported("recursion limit")
        return s.obs

    def snapshot(s, st):
        n = st.fork(); return n
    def newframe(s, fn, env, path, depth=0):
        s.fidn += 1; return Frame(s.fidn, fn, env, path, depth)

    def finish(s, fr, st, res, ins):
        if s.dry: return
        s.paths += 1
        s.model.at_exit(s, st, res)
        if not s.c: return
        if hasattr(s.c, "post"):
            goals = s.c.post(s, st, s.entryargs, res, "prove")
            pend = s.pending()
            s.covers.append(("exit " + ins.get("pos", ""), list(st.pc)))
            for lab, g in goals: s.oblige(st, "ensures " + lab, g, s.c.tags, "post", pos=ins.get("pos", ""), extra=pend)
            s.model.exit_frame(s, st, ins)
            return
        env = s.env(st)
        rt = s.mod.ty(s.fn["results"], fr.env)
        rtys = rt.elems or []
        for i, r in enumerate(res):
            if i < len(s.c.results): env["names"][s.c.results[i]] = s.sv(st, r, rtys[i])
        base = st
        extra = []
        for u in s.c.uses: extra += s.use(u, env)
        st.pc += s.pending(); st.pc += extra
        s.covers.append(("exit " + ins.get("pos", ""), list(st.pc)))
        for lab, tags, e in s.c.ensures:
            for l2, g in s.ev_clauses(e, env, "prove", lab):
                pend = s.pending()
                s.oblige(st, "ensures " + l2, g, tags, "post", pos=ins.get("pos", ""), extra=pend)
        s.frame_ob(st, ins)

    def frame_ob(s, st, ins):
        for name, (sort, e0) in sorted(s.model_comps.items()):
            cur = st.comps.get(name, e0)
            if cur == e0: continue
            if name.startswith("ch"): 
                if "chan" in s.c.opts: continue
            r = s.fresh("Ref", "r")
            env = s.env(s.entry_like(st))
            mods = []
            for (v, e, cs) in s.mod_disjuncts(s.c.modifies, s.env(s.entry_state(st))):
                if not s.speaks(cs, name): continue
                env2 = dict(env); env2["names"] = dict(env["names"]); env2["names"][v] = SV("Ref", r)
                env2["state"] = s.entry_state(st); env2["old"] = s.entry_state(st)
                mods.append(s.ev_bool(e, env2, "assume"))
            pend = s.pending()
            goal = "(= (select %s %s) (select %s %s))" % (cur, r, e0, r)
            s.oblige(st, "frame " + name, goal, s.c.tags, "frame", pos=ins.get("pos", ""),
                     extra=pend + ["(< (birth %s) %s)" % (r, s.now0)] + [Not(m) for m in mods])
    def entry_like(s, st): return st
    def mod_disjuncts(s, mods, env):
        """The modifies clauses as (variable, condition, components they speak of)."""
        out = []
        def expand(e):
            if e[0] == "or": return expand(e[1]) + expand(e[2])
            if e[0] == "call" and e[1] in s.sp.defs and not isinstance(s.sp.defs[e[1]][1], list):
                ps, body = s.sp.defs[e[1]]; return expand(subst(body, dict(zip(ps, e[2]))))
            return [e]
        def target(e, v, env):
            if e[0] == "exists":
                env = dict(env); env["names"] = dict(env["names"])
                for n, t in e[1]:
                    so, ty = s.spec_sort(t, env); env["names"][n] = SV(so, "?", ty)
                return target(e[3], v, env)
            if e[0] == "and": return target(e[1], v, env) or target(e[2], v, env)
            if e[0] == "cmp" and e[1] == "==":
                o = e[3] if e[2] == ("var", v) else e[2] if e[3] == ("var", v) else None
                if o is not None: return s.ev(o, env, "both").ty
            return None
        for v, e in mods:
            for d in expand(e):
                ty = target(d, v, env); cs = None
                if ty is not None and ty.under.k == "map": cs = set(s.mapcomps(ty)[:2])
                elif ty is not None and ty.under.k == "ptr": cs = "F_"
                out.append((v, d, cs))
        s.pending()
        return out
    @staticmethod
    def speaks(cs, comp): return cs is None or (comp.startswith("F_") if cs == "F_" else comp in cs)
    def entry_state(s, st):
        e = s.entry
        for n, (so, t) in s.model_comps.items(): e.comps.setdefault(n, t)
        return e

    # ------------------------------------------------------------ contract language
    def env(s, st, names=None, old=None, tenv=None, mode=None):
        return {"state": st, "old": old or s.entry_state(st), "names": dict(names if names is not None else s.penv), "tenv": tenv or {}, "now": st.now}
    def sv(s, st, v, ty):
        if isinstance(v, SlV): return SV("Slice", None, ty, v)
        if isinstance(v, StrV): return SV("String", v.term(), ty, v)
        if isinstance(v, StV):
            return SV("Struct", None, ty, v)
        if isinstance(v, (CloV, FnV)): return SV("Fn", None, ty, v)
        if isinstance(v, IfV): return SV("Iface", None, ty, v)
        if isinstance(v, (LocP, HpP)): return SV("Ref", None, ty, v)
        if isinstance(v, TV): return SV(s.sort(ty) if ty.under.k != "struct" else s.sort(ty), v.t, ty, v)
        return SV("?", None, ty, v)
    def svt(s, x, env):
        if x.t is None: x.t = s.term(env["state"], x.v)
        return x.t
    def pending(s):
        p = s.model.pend; s.model.pend = []; return p
    def ev_bool(s, e, env, mode):
        r = s.ev(e, env, mode)
        if r.sort != "Bool": raise Unsupported("spec: boolean expected")
        return r.t
    def ev_clauses(s, e, env, mode, lab):
        """Splits labelled macros and top-level conjunctions into named goals."""
        if e[0] == "call" and e[1] in s.sp.defs:
            ps, body = s.sp.defs[e[1]]
            env2 = s.macro_env(ps, e[2], env, mode)
            if isinstance(body, list):
                out = []
                for l, b in body: out += s.ev_clauses(b, env2, mode, lab + "." + l if lab else l)
                return out
            return s.ev_clauses(body, env2, mode, lab)
        if e[0] == "and":
            return s.ev_clauses(e[1], env, mode, lab) + s.ev_clauses(e[2], env, mode, lab)
        if e[0] == "imp" and e[2][0] in ("and", "call") and (e[2][0] == "and" or e[2][1] in s.sp.defs):
            a = s.ev_bool(e[1], env, "assume" if mode == "prove" else "prove")
            return [(l, Imp(a, g)) for l, g in s.ev_clauses(e[2], env, mode, lab)]
        return [(lab, s.ev_bool(e, env, mode))]
    def macro_env(s, ps, args, env, mode):
        if len(ps) != len(args): raise Unsupported("spec: macro arity")
        env2 = dict(env); nm = dict(env["names"])
        vals = [s.ev(a, env, mode) for a in args]
        for p, v in zip(ps, vals): nm[p] = v
        env2["names"] = nm; return env2

    def spec_sort(s, t, env):
        if t == "int": return "Int", None
        if t == "bool": return "Bool", None
        if t == "ref": return "Ref", None
        if t == "str": return "String", None
        if t == "iface": return "Iface", None
        if t in env["tenv"]: ty = env["tenv"][t]; return s.sort(ty), ty
        if t in s.model.spec_sorts: return s.model.spec_sorts[t], None
        ty = load.Ty("tparam", t); ty.name = t
        so = "S_" + t; s.use_sort(so)
        return so, ty

    def ev(s, e, env, mode):
        k = e[0]; flip = {"assume": "prove", "prove": "assume", "both": "both"}[mode]
        if k == "num": return SV("Int", e[1])
        if k == "str": return SV("String", smtstr(e[1]), None, StrV([("lit", e[1])]))
        if k == "var":
            n = e[1]
            if n in env["names"]: return env["names"][n]
            if n == "nil": return SV("nil", "nil")
            if n == "true" or n == "false": return SV("Bool", n)
            c = s.model.spec_const(s, n, env)
            if c is not None: return c
            raise Unsupported("spec: unknown name %s" % n)
        if k == "not": return SV("Bool", Not(s.ev_bool(e[1], env, flip)))
        if k == "and": return SV("Bool", And(s.ev_bool(e[1], env, mode), s.ev_bool(e[2], env, mode)))
        if k == "or": return SV("Bool", Or(s.ev_bool(e[1], env, mode), s.ev_bool(e[2], env, mode)))
        if k == "imp": return SV("Bool", Imp(s.ev_bool(e[1], env, flip), s.ev_bool(e[2], env, mode)))
        if k == "iff":
            a = s.ev_bool(e[1], env, "both"); b = s.ev_bool(e[2], env, "both")
            return SV("Bool", Eq(a, b))
        if k in ("forall", "exists"):
            env2 = dict(env); nm = dict(env["names"]); bs = []
            for n, t in e[1]:
                so, ty = s.spec_sort(t, env)
                s.n += 1; q = "%s?%d" % (n, s.n)
                bs.append((q, so)); nm[n] = SV(so, q, ty)
            env2["names"] = nm
            b = s.ev_bool(e[3], env2, mode)
            pats = []
            for ps in e[2]: pats.append([s.svt(s.ev(p, env2, "both"), env2) for p in ps])
            if k == "forall": return SV("Bool", Forall(bs, b, pats))
            return SV("Bool", Exists(bs, b))
        if k == "cmp":
            a = s.ev(e[2], env, "both"); b = s.ev(e[3], env, "both")
            if e[1] in ("==", "!="):
                t = s.sveq(a, b, env)
                return SV("Bool", t if e[1] == "==" else Not(t))
            x = s.svt(a, env); y = s.svt(b, env)
            f = {"<": Lt(x, y), "<=": Le(x, y), ">": Lt(y, x), ">=": Le(y, x)}
            return SV("Bool", f[e[1]])
        if k == "arith":
            a = s.ev(e[2], env, mode); b = s.ev(e[3], env, mode)
            if a.sort == "String":
                va = a.v if isinstance(a.v, StrV) else StrV([("t", s.svt(a, env))]); vb = b.v if isinstance(b.v, StrV) else StrV([("t", s.svt(b, env))])
                r = strcat(va, vb); return SV("String", r.term(), None, r)
            return SV("Int", Add(s.svt(a, env), s.svt(b, env)) if e[1] == "+" else Sub(s.svt(a, env), s.svt(b, env)))
        if k == "field":
            x = s.ev(e[1], env, mode); return s.model.spec_field(s, x, e[2], env)
        if k == "index":
            x = s.ev(e[1], env, mode); i = s.ev(e[2], env, mode); return s.sv_index(x, i, env)
        if k == "call":
            n = e[1]
            if n == "pre" and "pre" in env:
                env2 = dict(env); env2["state"] = env["pre"]; env2["now"] = env["pre"].now; return s.ev(e[2][0], env2, mode)
            if n == "old":
                env2 = dict(env); env2["state"] = env["old"]; env2["now"] = env["old"].now; return s.ev(e[2][0], env2, mode)
            if n in s.sp.defs:
                ps, body = s.sp.defs[n]
                env2 = s.macro_env(ps, e[2], env, mode)
                if isinstance(body, list): return SV("Bool", And(*[s.ev_bool(b, env2, mode) for _, b in body]))
                return s.ev(body, env2, mode)
            if n == "ite":
                c = s.ev_bool(e[2][0], env, "both"); a = s.ev(e[2][1], env, "both"); b = s.ev(e[2][2], env, "both")
                return SV(a.sort, Ite(c, s.svt(a, env), s.svt(b, env)), a.ty)
            if n == "has":
                m = s.ev(e[2][0], env, mode); i = s.ev(e[2][1], env, mode)
                d = s.mapdom(env["state"], m.ty)
                return SV("Bool", Sel(Sel(d, s.svt(m, env)), s.svt(i, env)))
            if n == "dom":
                m = s.ev(e[2][0], env, mode); ks = s.sort(m.ty.under.mkey)
                return SV("(Array %s Bool)" % ks, Sel(s.mapdom(env["state"], m.ty), s.svt(m, env)))
            if n == "len":
                x = s.ev(e[2][0], env, mode)
                if x.sort == "Slice": return SV("Int", x.v.ln)
                if x.sort == "String": return SV("Int", App("str.len", s.svt(x, env)))
                if x.ty is not None and x.ty.under.k == "map":
                    return SV("Int", s.card(env["state"], s.sort(x.ty.under.mkey), Sel(s.mapdom(env["state"], x.ty), s.svt(x, env))))
                raise Unsupported("spec: len")
            if n == "card":
                x = s.ev(e[2][0], env, mode); ks = re.match(r"\(Array (\S+) Bool\)", x.sort).group(1)
                return SV("Int", s.card(env["state"], ks, s.svt(x, env)))
            if n == "isnil":
                x = s.ev(e[2][0], env, mode)
                if x.sort == "Slice": return SV("Bool", x.v.nilt)
                return SV("Bool", Eq(s.svt(x, env), "nil"))
            if n == "allocated":
                x = s.ev(e[2][0], env, mode); return SV("Bool", "(< (birth %s) %s)" % (s.svt(x, env), env["now"]))
            if n == "fresh":
                x = s.ev(e[2][0], env, mode)
                return SV("Bool", "(>= (birth %s) %s)" % (s.svt(x, env), env["old"].now))
            if n == "same":
                return s.model.spec_same(s, e[2], env, mode)
            r = s.model.spec_call(s, n, e[2], env, mode)
            if r is not None: return r
            raise Unsupported("spec: unknown function %s" % n)
        raise Unsupported("spec: " + k)
    def sveq(s, a, b, env):
        if a.sort == "nil": a, b = b, a
        if b.sort == "nil":
            if a.sort == "Slice": return a.v.nilt
            z = {"Ref": "nil", "Iface": "nilI", "Fn": "nilF", "nil": "nil", "Sl": None}[a.sort]
            if z is None: return App("sl_nil", s.svt(a, env))
            return Eq(s.svt(a, env), z)
        if a.sort == "String":
            return s.model.str_eq(s, a, b, env)
        return Eq(s.svt(a, env), s.svt(b, env))
    def sv_index(s, x, i, env):
        st = env["state"]
        if x.sort == "Slice":
            b = st.backs.get(x.v.bid)
            if b is None:
                ety = x.ty.under.elem; es = s.sort(ety)
                return SV(es, s.fresh(es, "undef"), ety)
            v = Sel(b.content, Add(x.v.off, s.svt(i, env)))
            return SV(b.esort, v, b.ety)
        if x.sort.startswith("(Array "):
            m = re.match(r"\(Array (\S+) (.*)\)$", x.sort)
            return SV(m.group(2), Sel(s.svt(x, env), s.svt(i, env)), x.ty)
        if x.ty is not None and x.ty.under.k == "map":
            u = x.ty.under
            return SV(s.sort(u.elem), Sel(Sel(s.mapval(st, x.ty), s.svt(x, env)), s.svt(i, env)), u.elem)
        r = s.model.spec_index(s, x, i, env)
        if r is not None: return r
        raise Unsupported("spec: index")
    def use(s, u, env):
        return s.model.lemma(s, u, env)

    # ------------------------------------------------------------ blocks
    def exec_block(s, fr, bi, prev, st, k):
        fn = fr.fn; blk = fn["blocks"][bi]
        for (fid, body) in s.dry:
            if fid == fr.fid and bi not in body: return
        L = load.loops(fn)
        regs = st.regs[fr.fid]
        if bi in L:
            trip = regs.get("$trips", {}).get(bi, 0) if prev in L[bi] else 0
            if (prev not in L[bi] or trip) and s.counts(fr, bi, prev, st):     # a fixed number of rounds: run them
                if trip == 16: raise Unsupported("loop of many fixed rounds")
                regs["$trips"] = {**regs.get("$trips", {}), bi: trip + 1}
                s.phis(fr, blk, prev, st)
            elif trip: raise Unsupported("loop of a fixed number of rounds at first")
            elif prev is not None and prev in L[bi]:
                s.loop_back(fr, bi, prev, st); return
            else:
                st = s.loop_enter(fr, bi, prev, st, L[bi])
                if st is None: return
        elif blk["instrs"] and blk["instrs"][0]["op"] in ("Phi", "DebugRef"):
            s.phis(fr, blk, prev, st)
        s.exec_instrs(fr, blk, 0, st, k)
    def counts(s, fr, bi, prev, st):
        """The loop's condition compares numbers known here: it runs a fixed number of rounds."""
        blk = fr.fn["blocks"][bi]; last = blk["instrs"][-1]
        if prev is None or last["op"] != "If" or last["x"]["k"] != "reg": return False
        st = st.fork(); s.phis(fr, blk, prev, st); regs = st.regs[fr.fid]
        for ins in blk["instrs"][:-1]:
            if ins["op"] in ("Phi", "DebugRef"): continue
            if ins["op"] == "Call" and ins["call"].get("fn", {}).get("k") == "builtin" and ins["call"]["fn"]["n"] == "len":
                a = s.operand(fr, st, ins["call"]["args"][0])
                if not isinstance(a, SlV): return False
                regs[ins["r"]] = TV(s.mod.ty(ins["t"], fr.env), a.ln)
            elif ins["op"] == "BinOp":
                x = s.operand(fr, st, ins["x"]); y = s.operand(fr, st, ins["y"])
                if not all(isinstance(v, TV) and isnum(v.t) for v in (x, y)): return False
                regs[ins["r"]] = s.i_BinOp(fr, ins, st)
            else: return False
        c = regs.get(last["x"]["n"])
        return isinstance(c, TV) and c.t in ("true", "false")
    def phi_vals(s, fr, blk, prev, st):
        pi = blk["pred"].index(prev) if prev is not None else None
        out = []
        for ins in blk["instrs"]:
            if ins["op"] == "Phi": out.append((ins, s.operand(fr, st, ins["edges"][pi])))
            elif ins["op"] != "DebugRef": break
        return out
    def phis(s, fr, blk, prev, st):
        vs = s.phi_vals(fr, blk, prev, st)
        for ins, v in vs: st.regs[fr.fid][ins["r"]] = v

    def exec_instrs(s, fr, blk, i, st, k):
        ins_l = blk["instrs"]
        while i < len(ins_l):
            ins = ins_l[i]; op = ins["op"]
            if op in ("Phi", "DebugRef"): i += 1; continue
            if op == "Jump":
                s.exec_block(fr, blk["succ"][0], blk["i"], st, k); return
            if op == "If":
                c = s.term(st, s.operand(fr, st, ins["x"]))
                tag = fr.path + ":%d" % blk["i"]
                if c != "false":
                    a = st.fork() if c != "true" else st
                    if c != "true": a.pc.append(BrTerm(c)); a.trace.append(tag + "T")
                    s.exec_block(fr, blk["succ"][0], blk["i"], a, k)
                if c != "true":
                    if c != "false": st.pc.append(BrTerm(Not(c))); st.trace.append(tag + "F")
                    s.exec_block(fr, blk["succ"][1], blk["i"], st, k)
                return
            if op == "Return":
                if any(fid == fr.fid for fid, _ in s.dry): return
                k(st, [s.operand(fr, st, r) for r in ins["res"]], ins); return
            if op == "Panic":
                s.oblige(st, "panic unreachable", "false", s.tags_safety(), "safety", pos=ins["pos"]); return
            if op == "Defer":       # panics are excluded, so a recover block is never entered
                if any(blk["i"] in b for b in load.loops(fr.fn).values()): raise Unsupported("defer in a loop")
                c = ins["call"]
                d = (ins, [s.operand(fr, st, a) for a in c["args"]], s.operand(fr, st, c["fn"]) if "fn" in c else None)
                if d[2] is None: raise Unsupported("deferred interface call")
                regs = st.regs[fr.fid]; regs["$defers"] = regs.get("$defers", []) + [d]
                i += 1; continue
            if op == "RunDefers":
                ds = st.regs[fr.fid].get("$defers", [])
                if not ds: i += 1; continue
                st.regs[fr.fid]["$defers"] = ds[:-1]
                dins, dargs, dfn = ds[-1]
                s.call_value(fr, dins, st, dfn, dargs, lambda st2, v: s.exec_instrs(fr, blk, i, st2, k)); return
            if op == "Call":
                def cont(st2, v, i=i, ins=ins):
                    if "r" in ins: st2.regs[fr.fid][ins["r"]] = v
                    s.exec_instrs(fr, blk, i + 1, st2, k)
                s.call(fr, ins, st, cont); return
            if op == "Next":
                s.next(fr, ins, st, lambda st2, v: (st2.regs[fr.fid].__setitem__(ins["r"], v), s.exec_instrs(fr, blk, i + 1, st2, k))); return
            if op == "Select":
                s.model.select(s, fr, ins, st, lambda st2, v: (st2.regs[fr.fid].__setitem__(ins["r"], v), s.exec_instrs(fr, blk, i + 1, st2, k))); return
            if op == "UnOp" and ins["tok"] == "<-":
                s.model.recv(s, fr, ins, st, lambda st2, v: (st2.regs[fr.fid].__setitem__(ins["r"], v), s.exec_instrs(fr, blk, i + 1, st2, k))); return
            if op == "TypeAssert":
                s.model.typeassert(s, fr, ins, st, lambda st2, v: (st2.regs[fr.fid].__setitem__(ins["r"], v), s.exec_instrs(fr, blk, i + 1, st2, k))); return
            f = getattr(s, "i_" + op, None)
            if f is None: raise Unsupported("instruction %s at %s" % (op, ins.get("pos")))
            v = f(fr, ins, st)
            if v is not None and "r" in ins: st.regs[fr.fid][ins["r"]] = v
            i += 1
    def tags_safety(s): return tuple(s.c.tags) if s.c else ()

    # ------------------------------------------------------------ operands
    def operand(s, fr, st, o):
        if o is None: return None
        k = o["k"]
        if k == "reg":
            try: return st.regs[fr.fid][o["n"]]
            except KeyError: raise Unsupported("undefined register %s" % o["n"])
        if k == "const":
            ty = s.mod.ty(o["t"], fr.env)
            if o.get("zero"): return s.zero(ty, st)
            v = o["v"]
            if isinstance(v, bool): return TV(ty, "true" if v else "false")
            if isinstance(v, str): return StrV([("lit", v)], ty)
            so = s.sort(ty) if ty.under.k != "iface" else "Int"
            if so == "Int": return TV(ty, num(int(v["num"])))
            nm = "lit_" + re.sub(r"\W", "_", v["num"]); s.fun(nm, [], so); return TV(ty, nm)
        if k == "fn": return FnV(o)
        if k == "global": return GlobP(s.mod.ty(o["t"], fr.env), o["n"])
        if k == "builtin": return FnV(o)
        raise Unsupported("operand " + k)

    # ------------------------------------------------------------ plain instructions
    def i_Alloc(s, fr, ins, st):
        pty = s.mod.ty(ins["t"], fr.env); ety = pty.elem
        h = s.model.alloc_heap(s, st, ety, ins)
        if h is not None: return h
        s.n += 1; oid = s.n
        st.objs[oid] = s.model.zero_obj(s, st, ety); st.objty[oid] = ety
        s.objname[oid] = "%s:%s" % (fr.path, ins["r"])
        return LocP(pty, oid)
    def i_FieldAddr(s, fr, ins, st):
        x = s.operand(fr, st, ins["x"]); pty = s.mod.ty(ins["t"], fr.env)
        if isinstance(x, LocP): return LocP(pty, x.oid, x.path + (ins["idx"],))
        if isinstance(x, HpP): return HpP(pty, x.ref, x.sty, x.path + (ins["idx"],))
        if isinstance(x, BackP):
            v = s.load(fr, st, x, ins)
            raise Unsupported("field of slice element address")
        if isinstance(x, TV):
            s.ob(st, "nil dereference", Not(Eq(x.t, "nil")), fr, ins, s.tags_safety())
            return HpP(pty, x.t, x.ty.under.elem, (ins["idx"],))
        raise Unsupported("FieldAddr on %s" % type(x).__name__)
    def i_Field(s, fr, ins, st):
        x = s.operand(fr, st, ins["x"])
        return s.field(st, x, ins["idx"])
    def field(s, st, x, i):
        if isinstance(x, (StV, ArrV)): return x.f[i]
        if isinstance(x, TV): return s.model.opaque_field(s, st, x, i)
        raise Unsupported("field of %s" % type(x).__name__)
    def i_IndexAddr(s, fr, ins, st):
        x = s.operand(fr, st, ins["x"]); i = s.operand(fr, st, ins["i"]); pty = s.mod.ty(ins["t"], fr.env)
        it = s.term(st, i)
        if isinstance(x, LocP):
            a = s.loadloc(st, x)
            n = x.ty.under.elem.under.n
            if not isnum(it): raise Unsupported("symbolic array index")
            if not (0 <= val(it) < n): s.ob(st, "index in range", "false", fr, ins, s.tags_safety())
            return LocP(pty, x.oid, x.path + (val(it),))
        if isinstance(x, SlV):
            s.ob(st, "index in range", And(Le("0", it), Lt(it, x.ln)), fr, ins, s.tags_safety())
            if x.bid is None: raise Unsupported("index of nil slice") if not s.dry else Unsupported("index of nil slice")
            return BackP(pty, x.bid, Add(x.off, it))
        raise Unsupported("IndexAddr on %s" % type(x).__name__)
    def i_Index(s, fr, ins, st):
        x = s.operand(fr, st, ins["x"]); i = s.term(st, s.operand(fr, st, ins["i"]))
        if isinstance(x, ArrV) and isnum(i): return x.f[val(i)]
        if isinstance(x, StrV):
            t = x.term(); s.ob(st, "index in range", And(Le("0", i), Lt(i, "(str.len %s)" % t)), fr, ins, s.tags_safety())
            return TV(s.mod.ty(ins["t"], fr.env), "(str.to_code (str.at %s %s))" % (t, i))
        raise Unsupported("Index")
    def loadloc(s, st, p):
        v = st.objs[p.oid]
        for i in p.path: v = s.field(st, v, i)
        return v
    def storeloc(s, st, p, nv):
        def go(v, path):
            if not path: return nv
            if isinstance(v, TV): v = s.model.expand(s, st, v)
            f = list(v.f); f[path[0]] = go(f[path[0]], path[1:])
            return type(v)(v.ty, f)
        st.objs[p.oid] = go(st.objs[p.oid], p.path)
    def load(s, fr, st, p, ins):
        if isinstance(p, LocP): return s.loadloc(st, p)
        if isinstance(p, BackP):
            b = st.backs[p.bid]
            return s.model.back_load(s, st, b, p)
        if isinstance(p, GlobP): return s.model.global_load(s, st, p)
        if isinstance(p, TV):
            s.ob(st, "nil dereference", Not(Eq(p.t, "nil")), fr, ins, s.tags_safety())
            p = HpP(p.ty, p.t, p.ty.under.elem, ())
        if isinstance(p, HpP): return s.model.heap_load(s, st, p)
        raise Unsupported("load through %s" % type(p).__name__)
    def store(s, fr, st, p, v, ins):
        if isinstance(p, LocP):
            if p.oid in st.pub: s.model.store_published(s, fr, st, p, v, ins); return
            s.model.local_store(s, fr, st, p, ins)
            s.storeloc(st, p, v); return
        if isinstance(p, BackP):
            b = st.backs[p.bid]
            if not b.fresh or b.shared or b.pub:
                s.ob(st, "writes only to a slice this function owns", "false", fr, ins, s.tags_safety(), "frame")
            nb = b.copy(); s.model.back_store(s, st, nb, p.idx, v); st.backs[p.bid] = nb; return
        if isinstance(p, TV):
            s.ob(st, "nil dereference", Not(Eq(p.t, "nil")), fr, ins, s.tags_safety())
            p = HpP(p.ty, p.t, p.ty.under.elem, ())
        if isinstance(p, HpP): s.model.heap_store(s, fr, st, p, v, ins); return
        if isinstance(p, GlobP):
            s.ob(st, "does not write to package variable " + p.n, "false", fr, ins, s.tags_safety(), "frame"); return
        raise Unsupported("store through %s" % type(p).__name__)
    def i_Store(s, fr, ins, st):
        s.store(fr, st, s.operand(fr, st, ins["addr"]), s.operand(fr, st, ins["v"]), ins)
    def i_UnOp(s, fr, ins, st):
        x = s.operand(fr, st, ins["x"]); tok = ins["tok"]; ty = s.mod.ty(ins["t"], fr.env)
        if tok == "*": return s.load(fr, st, x, ins)
        if tok == "!": return TV(ty, Not(s.term(st, x)))
        if tok == "-" and s.sort(ty) == "Int": return TV(ty, Sub("0", s.term(st, x)))
        raise Unsupported("unary " + tok)
    def i_BinOp(s, fr, ins, st):
        x = s.operand(fr, st, ins["x"]); y = s.operand(fr, st, ins["y"]); tok = ins["tok"]; ty = s.mod.ty(ins["t"], fr.env)
        if tok in ("==", "!="):
            t = s.eq(st, x, y)
            return TV(ty, t if tok == "==" else Not(t))
        if isinstance(x, StrV) and tok == "+": return strcat(x, y)
        if isinstance(x, StrV):
            a, b = x.term(), y.term()
            return TV(ty, {"<": "(str.< %s %s)" % (a, b), "<=": "(str.<= %s %s)" % (a, b), ">": "(str.< %s %s)" % (b, a), ">=": "(str.<= %s %s)" % (b, a)}[tok])
        a = s.term(st, x); b = s.term(st, y)
        if tok in ("+", "-", "<", "<=", ">", ">=") and s.sort(x.ty) == "Int":
            return TV(ty, {"+": Add(a, b), "-": Sub(a, b), "<": Lt(a, b), "<=": Le(a, b), ">": Lt(b, a), ">=": Le(b, a)}[tok])
        if tok == "*" and s.sort(ty) == "Int" and (isnum(a) or isnum(b)): return TV(ty, "(* %s %s)" % (a, b))
        if tok in ("&", "|", "^", "<<", ">>", "/", "%", "*", "&^"):
            f = s.fun("op_" + {"&": "and", "|": "or", "^": "xor", "<<": "shl", ">>": "shr", "/": "div", "%": "mod", "*": "mul", "&^": "andnot"}[tok], ["Int", "Int"], "Int")
            if tok in ("/", "%"): s.ob(st, "division by zero", Not(Eq(b, "0")), fr, ins, s.tags_safety())
            return TV(ty, App(f, a, b))
        raise Unsupported("binary %s" % tok)
    def eq(s, st, x, y):
        if isinstance(x, SlV) or isinstance(y, SlV):
            sl, o = (x, y) if isinstance(x, SlV) else (y, x)
            if isinstance(o, SlV) and o.bid is None and o.nilt == "true": return sl.nilt
            if sl.bid is None and isinstance(o, SlV): return o.nilt
            raise Unsupported("slice comparison")
        if isinstance(x, StrV) and isinstance(y, StrV):
            lx, ly = x.lit(), y.lit()
            if lx is not None and ly is not None: return "true" if lx == ly else "false"
            return Eq(x.term(), y.term())
        if isinstance(x, IfV) and isinstance(y, TV) and y.t == "nilI": return "false"
        if isinstance(y, IfV) and isinstance(x, TV) and x.t == "nilI": return "false"
        if isinstance(x, (LocP, HpP)) and isinstance(y, TV) and y.t == "nil": return s.model.ptr_nil(s, st, x)
        if isinstance(y, (LocP, HpP)) and isinstance(x, TV) and x.t == "nil": return s.model.ptr_nil(s, st, y)
        if isinstance(x, (CloV, FnV)) and isinstance(y, TV) and y.t == "nilF": return "false"
        if isinstance(x, StV) and isinstance(y, StV): return And(*[s.eq(st, a, b) for a, b in zip(x.f, y.f)])
        return Eq(s.term(st, x), s.term(st, y))
    def i_ChangeType(s, fr, ins, st):
        v = s.operand(fr, st, ins["x"]); ty = s.mod.ty(ins["t"], fr.env)
        xt = s.mod.ty(ins["x"]["t"], fr.env)
        if ty.under.k == "iface" and xt.under.k != "iface": return IfV(ty, xt, v)     # a type parameter's value
        return s.retype(v, ty)
    def retype(s, v, ty):
        if isinstance(v, TV): return TV(ty, v.t)
        if isinstance(v, SlV): return SlV(ty, v.bid, v.off, v.ln, v.nilt, v.sl)
        if isinstance(v, StrV): return StrV(v.p, ty)
        if isinstance(v, StV): return StV(ty, v.f)
        return v
    def i_Convert(s, fr, ins, st):
        v = s.operand(fr, st, ins["x"]); ty = s.mod.ty(ins["t"], fr.env)
        return s.model.convert(s, fr, st, v, ty, ins)
    def i_ChangeInterface(s, fr, ins, st):
        v = s.operand(fr, st, ins["x"]); ty = s.mod.ty(ins["t"], fr.env)
        if isinstance(v, IfV): return IfV(ty, v.dyn, v.v)
        return TV(ty, s.term(st, v))
    def i_MakeInterface(s, fr, ins, st):
        v = s.operand(fr, st, ins["x"]); dyn = s.mod.ty(ins["xt"], fr.env)
        return IfV(s.mod.ty(ins["t"], fr.env), dyn, v)
    def i_Extract(s, fr, ins, st):
        t = s.operand(fr, st, ins["x"]); return t.v[ins["idx"]]
    def i_MakeClosure(s, fr, ins, st):
        return CloV(s.mod.ty(ins["t"], fr.env), s.mod.funcs[ins["fn"]["n"]], fr.env, [s.operand(fr, st, b) for b in ins["bind"]])
    def i_MakeMap(s, fr, ins, st):
        ty = s.mod.ty(ins["t"], fr.env)
        c = s.model.concrete_map(s, st, ty, ins)
        if c is not None: return c
        r = s.alloc(st, "map")
        d, v, ks, vs = s.mapcomps(ty)
        dom = s.mapdom(st, ty); s.mapval(st, ty)
        s.setcomp(st, d, Sto(dom, r, "((as const (Array %s Bool)) false)" % ks), r)
        st.maps.append(("%s/%s" % (fr.path, ins["r"]), r, ty))
        return TV(ty, r)
    def i_MapUpdate(s, fr, ins, st):
        m = s.operand(fr, st, ins["m"]); kv = s.operand(fr, st, ins["key"]); v = s.operand(fr, st, ins["v"])
        if isinstance(m, MapV): return s.model.concrete_update(s, st, m, kv, v)
        s.ob(st, "assignment to entry in nil map", Not(Eq(m.t, "nil")), fr, ins, s.tags_safety())
        kt = s.term(st, kv); vt = s.term(st, v)
        d, vn, ks, vs = s.mapcomps(m.ty)
        dom = s.mapdom(st, m.ty); va = s.mapval(st, m.ty)
        od = s.define(st, "(Array %s Bool)" % ks, Sel(dom, m.t), "od")
        nd = s.define(st, "(Array %s Bool)" % ks, Sto(od, kt, "true"), "nd")
        s.setcomp(st, d, Sto(dom, m.t, nd), m.t)
        s.setcomp(st, vn, Sto(va, m.t, Sto(Sel(va, m.t), kt, vt)), m.t)
        c = s.card(st, ks, nd)
        st.pc.append("(= %s (+ %s (ite (select %s %s) 0 1)))" % (c, s.card(st, ks, od), od, kt))
    def map_delete(s, fr, ins, st, m, kv):
        kt = s.term(st, kv); d, vn, ks, vs = s.mapcomps(m.ty); dom = s.mapdom(st, m.ty)
        od = s.define(st, "(Array %s Bool)" % ks, Sel(dom, m.t), "od")
        nd = s.define(st, "(Array %s Bool)" % ks, Sto(od, kt, "false"), "nd")
        s.setcomp(st, d, Sto(dom, m.t, nd), m.t)
        st.pc.append("(= %s (- %s (ite (select %s %s) 1 0)))" % (s.card(st, ks, nd), s.card(st, ks, od), od, kt))
    def i_Lookup(s, fr, ins, st):
        m = s.operand(fr, st, ins["x"]); kv = s.operand(fr, st, ins["i"])
        if isinstance(m, StrV):
            return s.i_Index(fr, {**ins, "op": "Index"}, st)
        if isinstance(m, MapV): raise Unsupported("lookup in constant map")
        u = m.ty.under; kt = s.term(st, kv)
        has = Sel(Sel(s.mapdom(st, m.ty), m.t), kt)
        raw = Sel(Sel(s.mapval(st, m.ty), m.t), kt)
        so = s.sort(u.elem)
        zv = s.zero(u.elem, st)
        z = s.term(st, zv)
        vt = s.define(st, so, Ite(has, raw, z), "lk")
        v = s.unterm(st, u.elem, vt)
        if ins["commaok"]: return TupV([v, TV(None, has)])
        return v
    def i_Range(s, fr, ins, st):
        x = s.operand(fr, st, ins["x"])
        if isinstance(x, StrV): raise Unsupported("range over string")
        ks = s.sort(x.ty.under.mkey)
        s.n += 1; iid = s.n
        st.iters[iid] = Iter(x, ks, "((as const (Array %s Bool)) false)" % ks, Sel(s.mapdom(st, x.ty), x.t), x.ty, fr.fid, "%s/%s" % (fr.path, ins["r"]))
        return IterV(iid)
    def next(s, fr, ins, st, k):
        it = s.operand(fr, st, ins["x"]); I = st.iters[it.iid]; u = I.ty.under
        domN = Sel(s.mapdom(st, I.ty), I.m.t)
        # another element
        a = st.fork(); kk = s.fresh(I.ks, "k")
        a.pc += [Sel(domN, kk), Not(Sel(I.done, kk))]
        J = I.copy(); nd = s.fresh("(Array %s Bool)" % I.ks, "done"); a.pc.append("(= %s %s)" % (nd, Sto(I.done, kk, "true")))
        a.pc.append("(= %s (+ %s 1))" % (s.card(a, I.ks, nd), s.card(a, I.ks, I.done)))
        k2 = "k?%d" % (s.n + 1); s.n += 1          # what has been visited is no more than there was
        a.pc.append("(=> (forall (({0} {1})) (! (=> (select {2} {0}) (select {3} {0})) :pattern ((select {2} {0})))) (<= {4} {5}))".format(k2, I.ks, nd, domN, s.card(a, I.ks, nd), s.card(a, I.ks, domN)))
        J.done = nd; J.cur = kk; a.iters[it.iid] = J
        s.model.next_fact(s, a, I, nd, kk)
        v = s.unterm(a, u.elem, Sel(Sel(s.mapval(a, I.ty), I.m.t), kk))
        a.trace.append("%s:next" % I.reg)
        k(a, TupV([TV(None, "true"), TV(u.mkey, kk), v]))
        # no more elements
        q = "k?%d" % (s.n + 1); s.n += 1
        st.pc.append("(forall ((%s %s)) (! (=> (and (select %s %s) (select %s %s)) (select %s %s)) :pattern ((select %s %s))  :pattern ((select %s %s))))" % (q, I.ks, domN, q, I.dom0, q, I.done, q, I.done, q, domN, q))
        # nothing was added or removed meanwhile: exactly the keys were visited
        st.pc.append("(=> (= %s %s) (= %s %s))" % (domN, I.dom0, I.done, I.dom0))
        st.trace.append("%s:end" % I.reg)
        k(st, TupV([TV(None, "false"), None, None]))
    def i_MakeSlice(s, fr, ins, st):
        ty = s.mod.ty(ins["t"], fr.env); u = ty.under
        ln = s.term(st, s.operand(fr, st, ins["len"])); cap = s.term(st, s.operand(fr, st, ins["cap"]))
        s.ob(st, "makeslice size", And(Le("0", ln), Le(ln, cap)), fr, ins, s.tags_safety())
        return s.model.make_slice(s, st, ty, ln)
    def i_Slice(s, fr, ins, st):
        x = s.operand(fr, st, ins["x"]); ty = s.mod.ty(ins["t"], fr.env)
        lo = s.term(st, s.operand(fr, st, ins["lo"])) if ins["lo"] else "0"
        if isinstance(x, LocP):
            a = s.loadloc(st, x)
            if not isinstance(a, ArrV) or ins["lo"] or ins["hi"]: raise Unsupported("slice of array")
            return s.model.slice_of_array(s, st, ty, a, x)
        if isinstance(x, StrV):
            t = x.term(); ln = "(str.len %s)" % t
            hi = s.term(st, s.operand(fr, st, ins["hi"])) if ins["hi"] else ln
            s.ob(st, "slice bounds", And(Le("0", lo), Le(lo, hi), Le(hi, ln)), fr, ins, s.tags_safety())
            return StrV([("t", "(str.substr %s %s %s)" % (t, lo, Sub(hi, lo)))], ty)
        if isinstance(x, SlV):
            hi = s.term(st, s.operand(fr, st, ins["hi"])) if ins["hi"] else x.ln
            # upper bound len, not cap: stricter than Go, flagged as an obligation
            s.ob(st, "slice bounds", And(Le("0", lo), Le(lo, hi), Le(hi, x.ln)), fr, ins, s.tags_safety())
            r = SlV(ty, x.bid, Add(x.off, lo), Sub(hi, lo) if hi != x.ln or lo != "0" else x.ln, x.nilt)
            s.model.sliced(s, st, x, r, lo)
            return r
        raise Unsupported("Slice on %s" % type(x).__name__)
    def i_MakeChan(s, fr, ins, st): return s.model.make_chan(s, fr, ins, st)
    def i_Send(s, fr, ins, st): return s.model.send(s, fr, ins, st)
    def i_Go(s, fr, ins, st): return s.model.go(s, fr, ins, st)

    # ------------------------------------------------------------ calls
    def call(s, fr, ins, st, cont):
        c = ins["call"]
        args = [s.operand(fr, st, a) for a in c["args"]]
        if "invoke" in c:
            recv = s.operand(fr, st, c["recv"])
            return s.model.invoke(s, fr, ins, st, recv, c["invoke"], args, cont)
        f = s.operand(fr, st, c["fn"])
        return s.call_value(fr, ins, st, f, args, cont)
    def call_value(s, fr, ins, st, f, args, cont):
        if isinstance(f, CloV):
            return s.inline(fr, ins, st, f.fn, f.env, args, cont, f.binds)
        if isinstance(f, FnV):
            if f.ref["k"] == "builtin": return cont(st, s.builtin(fr, ins, st, f.ref["n"], args))
            return s.call_fn(fr, ins, st, f.ref, args, cont)
        if isinstance(f, TV):
            return s.model.call_unknown(s, fr, ins, st, f, args, cont)
        raise Unsupported("call of %s" % type(f).__name__)
    def call_fn(s, fr, ins, st, ref, args, cont):
        name = ref["n"]
        m = s.model.models.get(name)
        if m is None: m = s.model.models.get(short_ext(name))
        if m is not None:
            s.usedmodels.add(short_ext(name))
            return m(s, fr, ins, st, args, cont)
        fn = s.mod.funcs.get(name) or s.mod.byfull.get(ref.get("full"))
        if fn is None or not fn["blocks"]: raise Unsupported("call of %s, which has neither body nor model" % name)
        env = {}
        for tp, ta in zip(fn["tparams"], ref.get("targs", [])):
            env[s.mod.types[tp]["name"]] = s.mod.ty(ta, fr.env)
        if not env and fn.get("parent"): env = fr.env
        c = s.sp.contracts.get(short(name))
        if c is not None and hasattr(c, "apply"):
            if fn.get("synth") or not c.fits(s, fn, env): return s.inline(fr, ins, st, fn, env, args, cont)
            return c.apply(s, fr, ins, st, fn, env, args, cont)
        if c is not None and len(c.params) == len(fn["params"]) and "inline" not in c.opts:
            return s.call_contract(fr, ins, st, fn, c, env, args, cont)
        return s.inline(fr, ins, st, fn, env, args, cont)
    def inline(s, fr, ins, st, fn, env, args, cont, binds=()):
        if fr.depth >= s.MAXDEPTH: raise Unsupported("inlining too deep (recursion without contract?) at %s" % fn["name"])
        s.inlined.add(short(fn["name"]))
        nf = s.newframe(fn, env, "%s/%s@%s" % (fr.path, short(fn["name"]), ins.get("r", "")), fr.depth + 1)
        regs = {}
        for p, a in zip(fn["params"], args): regs[p["n"]] = a
        for p, b in zip(fn["free"], binds): regs[p["n"]] = b
        st.regs[nf.fid] = regs
        def ret(st2, res, ins2):
            st2 = st2
            st2.regs.pop(nf.fid, None)
            cont(st2, s.pack(res))
        s.exec_block(nf, 0, None, st, ret)
    def pack(s, res):
        if len(res) == 1: return res[0]
        return TupV(list(res))
    def call_contract(s, fr, ins, st, fn, c, env, args, cont):
        s.calls.add(c.name)
        names = {}
        for nm, p, a in zip(c.params, fn["params"], args):
            names[nm] = s.sv(st, a, s.mod.ty(p["t"], env))
        pre = s.snapshot(st)
        e0 = s.env(st, names, pre, env)
        if s.c and c.requires:
            for u in s.c.uses:
                if u[0] == "call" and (u[1] == "atcalls" or u[1] == "atloops" and u[2][0][1] == "ext"): st.pc += s.use(u[2][0], s.env(st)) + s.pending()
        for lab, tags, e in c.requires:
            for l2, g in s.ev_clauses(e, e0, "prove", lab):
                pend = s.pending()
                s.oblige(st, "precondition %s of %s" % (l2, c.name), g, s.tags_safety(), "pre", pos=ins["pos"], extra=pend)
                st.pc += pend; 
                if g != "true": st.pc.append(g)
        s.check_descent(st, c, e0, ins["pos"])
        s.model.before_call(s, st, c, names)
        pre = s.snapshot(st)
        # havoc
        if c.allocates or c.modifies:
            if c.allocates:
                nn = s.fresh("Int", "now"); st.pc.append("(>= %s %s)" % (nn, pre.now)); st.now = nn
            s.call_havoc(st, pre, c, names, env)
        rt = s.mod.ty(fn["results"], env)
        res = s.model.call_results(s, st, c, rt, names, pre)
        for nm, r, t in zip(c.results, res, rt.elems or []): names[nm] = s.sv(st, r, t)
        e1 = s.env(st, names, pre, env)
        for lab, tags, e in c.ensures:
            for l2, g in s.ev_clauses(e, e1, "assume", lab):
                st.pc += s.pending(); st.pc.append(g)
        s.model.after_call(s, st, c, names, res, e1, fr, ins)
        cont(st, s.pack(res))
    def comp_of_alloc(s, kind): return s.model.alloc_comps(s, kind)
    def call_havoc(s, st, pre, c, names, env):
        touched = {}
        for kind in c.allocates + c.touches:
            for nm, sort in s.model.alloc_comps(s, kind, env): touched[nm] = sort
        quant = set(nm for kind in c.allocates for nm, _ in s.model.alloc_comps(s, kind, env))
        penv = s.env(pre, names, pre, env)
        mods = s.mod_disjuncts(c.modifies, penv)
        for nm, sort in touched.items():
            s.ensure_comp(pre, nm, sort); s.ensure_comp(st, nm, sort)
            old = st.comps[nm]
            if nm not in quant:
                t = old
                inner = sort[len("(Array Ref "):-1]
                for v, d, cs in mods:
                    if not s.speaks(cs, nm): continue
                    if not (d[0] == "cmp" and d[1] == "==" and d[2] == ("var", v)): raise Unsupported("spec: %s touches existing objects but its modifies clause is not a list of them" % c.name)
                    w = s.svt(s.ev(d[3], penv, "both"), penv)
                    t = Sto(t, w, s.fresh(inner, nm + "_at")); st.writes.append((nm, w))
                new = s.fresh(sort, nm); st.pc.append("(= %s %s)" % (new, t)); st.comps[nm] = new
                continue
            new = s.fresh(sort, nm)
            if nm.startswith("dom_"): st.pc.append("(= (select %s nil) ((as const %s) false))" % (new, sort[len("(Array Ref "):-1]))
            st.comps[nm] = new
            s.n += 1; q = "r?%d" % s.n
            conds = ["(< (birth %s) %s)" % (q, pre.now)]
            ps = s.snapshot(pre)
            for v, e, cs in mods:
                if not s.speaks(cs, nm): continue
                nm2 = dict(names); nm2[v] = SV("Ref", q)
                ev = s.env(pre, nm2, pre, env)
                conds.append(Not(s.ev_bool(e, ev, "prove")))
            st.pc += s.pending()
            st.pc.append("(forall ((%s Ref)) (! (=> %s (= (select %s %s) (select %s %s))) :pattern ((select %s %s))))" % (q, And(*conds), new, q, old, q, new, q))
            st.writes.append((nm, None))

    def builtin(s, fr, ins, st, n, args):
        ty = s.mod.ty(ins["t"], fr.env) if ins.get("t") else None
        if n == "len":
            x = args[0]
            if isinstance(x, SlV): return TV(ty, x.ln)
            if isinstance(x, StrV):
                l = x.lit()
                if l is not None: return TV(ty, num(len(l.encode())))
                return TV(ty, "(str.len %s)" % x.term())
            if isinstance(x, TV) and x.ty.under.k == "map":
                ks = s.sort(x.ty.under.mkey)
                return TV(ty, s.define(st, "Int", s.card(st, ks, Sel(s.mapdom(st, x.ty), x.t)), "len"))
            raise Unsupported("len")
        if n == "append": return s.model.append(s, fr, ins, st, args[0], args[1])
        if n == "copy": return s.model.copy_slice(s, fr, ins, st, args[0], args[1])
        if n == "delete":
            return s.map_delete(fr, ins, st, args[0], args[1])
        if n == "close": return s.model.close(s, fr, ins, st, args[0])
        if n in ("ssa:wrapnilchk",):
            x = args[0]
            if isinstance(x, TV): s.ob(st, "nil dereference", Not(Eq(x.t, "nil")), fr, ins, s.tags_safety())
            return x
        if n == "cap":
            c = s.fresh("Int", "cap"); st.pc.append("(>= %s %s)" % (c, args[0].ln)); return TV(ty, c)
        if n in ("print", "println"): return None
        if n == "min" or n == "max":
            a, b = s.term(st, args[0]), s.term(st, args[1])
            return TV(ty, Ite(Le(a, b), a, b) if n == "min" else Ite(Le(a, b), b, a))
        raise Unsupported("builtin " + n)

    # ------------------------------------------------------------ loops
    def loop_key(s, fr, bi): return "%s#%d" % (fr.path, bi)
    def havoc_like(s, st, v, hint):
        """An arbitrary value of the same shape."""
        if isinstance(v, TV):
            if v.ty is None: return TV(None, s.fresh("Bool", hint))
            c = s.fresh(s.sort(v.ty), hint)
            if s.sort(v.ty) == "Ref": st.pc.append("(< (birth %s) %s)" % (c, st.now))
            return TV(v.ty, c)
        if isinstance(v, StrV): return StrV([("t", s.fresh("String", hint))], v.ty)
        if isinstance(v, StV): return StV(v.ty, [s.havoc_like(st, x, hint) for x in v.f])
        if isinstance(v, ArrV): return ArrV(v.ty, [s.havoc_like(st, x, hint) for x in v.f])
        if isinstance(v, (IfV,)): return TV(v.ty, s.fresh("Iface", hint))
        if isinstance(v, SlV): return s.havoc_slice(st, v, hint, None)
        if isinstance(v, (LocP, HpP)):
            c = s.fresh("Ref", hint); st.pc.append("(< (birth %s) %s)" % (c, st.now))
            return TV(v.ty, c)
        return s.model.havoc_special(s, st, v, hint)
    def havoc_slice(s, st, v, hint, keep):
        u = v.ty.under; es = s.sort(u.elem)
        ln = s.fresh("Int", hint + "_len"); off = s.fresh("Int", hint + "_off")
        st.pc += ["(>= %s 0)" % ln, "(>= %s 0)" % off]
        if keep is not None:
            return SlV(v.ty, keep, off, ln, v.nilt)
        if v.bid is not None:
            b = st.backs[v.bid].copy(); b.shared = True; st.backs[v.bid] = b
        nl = s.fresh("Bool", hint + "_nil"); st.pc.append("(=> %s (= %s 0))" % (nl, ln))
        bid = s.model.fresh_owned(s, st, u.elem, hint, "0", ln)      # numbered from the slice's own start
        return SlV(v.ty, bid, "0", ln, nl)
    def owned(s, st, v):
        """The slice owns its tail (see append)."""
        if v.bid is None: return "true"
        b = st.backs[v.bid]
        if not b.fresh or b.shared: return Eq(v.ln, "0") if False else "false"
        return Eq(b.hw, Add(v.off, v.ln))

    def loop_enter(s, fr, bi, prev, st, body):
        key = s.loop_key(fr, bi); blk = fr.fn["blocks"][bi]
        pv = s.phi_vals(fr, blk, prev, st)
        mods = s.loop_mods(fr, bi, prev, st, body, pv)
        ent = s.snapshot(st)
        for ins, v in pv: st.regs[fr.fid][ins["r"]] = v
        rec = {"key": key, "entry": ent, "bi": bi, "fid": fr.fid, "mods": mods, "pv": {i["r"]: v for i, v in pv}, "blk": blk, "snap": s.n, "fr": fr}
        st.loops[key] = rec
        if not s.dry:
            for ins, v in pv:
                if isinstance(v, SlV) and ins["r"] not in mods["keepsl"]:
                    s.oblige(st, "slice %s owns its tail" % (ins.get("comment") or ins["r"]), s.owned(st, v), s.tags_safety(), "safety", pos=ins["pos"])
            for n, v in s.obj_slices(st, mods): s.oblige(st, "slice in %s owns its tail" % n, s.owned(st, v), s.tags_safety(), "safety")
            st.pc += s.model.init_facts(s, fr, st, rec)
            s.check_cands(fr, st, rec, "init")
        s.do_havoc(fr, st, mods, pv, rec)
        if not s.dry:
            s.assume_cands(fr, st, rec); st.pc += s.model.loop_facts(s, fr, st, rec)
        rec["head"] = None
        if s.total() and not s.dry: rec["ways"] = s.ways(fr, st, rec)
        for name, refs in sorted(mods["comps"].items()):
            for r in ([None] if refs is None else sorted(refs)): st.writes.append((name, r))
        st.loops = dict(st.loops); st.loops[key] = dict(rec, headregs={i["r"]: st.regs[fr.fid][i["r"]] for i, _ in pv}, headobjs=dict(st.objs), headbacks=dict(st.backs), headcomps=dict(st.comps), headiters=dict(st.iters), snap=rec["snap"])
        return st

    def do_havoc(s, fr, st, mods, pv, rec):
        if mods["now"]:
            nn = s.fresh("Int", "now"); st.pc.append("(>= %s %s)" % (nn, st.now)); st.now = nn
        for name, refs in sorted(mods["comps"].items()):
            if name not in st.comps: s.ensure_comp(st, name, s.model_comps[name][0])
            s.havoc_comp(st, name, refs)
        for oid, path in sorted(mods["objs"]):
            if oid in st.objs: st.objs[oid] = s.havoc_leaf(st, st.objs[oid], path)
        for bid in sorted(mods["backs"]):
            if bid in st.backs:
                b = st.backs[bid].copy(); s.model.havoc_back(s, st, b)
                st.backs[bid] = b
        for iid in sorted(mods["iters"]):
            if iid in st.iters:
                I = st.iters[iid].copy(); I.done = s.fresh("(Array %s Bool)" % I.ks, "done"); I.cur = None
                st.iters[iid] = I
        for ins, v in pv:
            h = ins.get("comment") or ins["r"]
            if isinstance(v, SlV):
                nv = s.havoc_slice(st, v, h, mods["keepsl"].get(ins["r"]))
            else: nv = s.havoc_like(st, v, h)
            st.regs[fr.fid][ins["r"]] = nv

    def diff_leaves(s, a, b, path):
        if a is b or b is None: return []
        if isinstance(a, (StV, ArrV)) and type(a) is type(b) and len(a.f) == len(b.f):
            return [x for i, (p, q) in enumerate(zip(a.f, b.f)) for x in s.diff_leaves(p, q, path + (i,))]
        return [path]
    def havoc_leaf(s, st, v, path):
        if not path: return s.havoc_like(st, v, "ob")
        if isinstance(v, TV): v = s.model.expand(s, st, v)
        f = list(v.f); f[path[0]] = s.havoc_leaf(st, f[path[0]], path[1:])
        return type(v)(v.ty, f)
    def obj_slices(s, st, mods):
        """The slices inside objects that the loop changes: (name, value)."""
        out = []
        def walk(v, n):
            if isinstance(v, SlV): out.append((n, v))
            elif isinstance(v, (StV, ArrV)):
                for i, x in enumerate(v.f): walk(x, n + ".%d" % i)
        for oid, path in sorted(mods["objs"]):
            if oid not in st.objs: continue
            v = st.objs[oid]
            for i in path:
                if not isinstance(v, (StV, ArrV)): break
                v = v.f[i]
            walk(v, "object %d" % oid)
        return out
    def loop_mods(s, fr, bi, prev, st0, body, pv):
        key = s.loop_key(fr, bi)
        ck = key
        base = s.modcache.get(ck)
        mods = {"comps": {}, "objs": set(), "backs": set(), "iters": set(), "now": False, "keepsl": {}} if base is None else base
        if base is not None:
            return s.relocate_mods(base, fr, st0, pv, body, bi, prev)
        for _ in range(12):
            r = s.dry_once(fr, bi, prev, st0, body, pv, mods)
            if not r: break
        return mods
    def relocate_mods(s, base, fr, st0, pv, body, bi, prev): return base

    def dry_once(s, fr, bi, prev, st0, body, pv, mods):
        st = st0.fork()
        saven = s.n
        s.dry.append((fr.fid, body))
        for ins, v in pv: st.regs[fr.fid][ins["r"]] = v
        rec = {"key": s.loop_key(fr, bi), "fid": fr.fid, "bi": bi, "dryrec": [], "snap": s.n, "entry": st0, "mods": mods, "pv": {i["r"]: v for i, v in pv}, "blk": fr.fn["blocks"][bi], "fr": fr}
        # slices: keep their backing array unless the loop changes it
        for ins, v in pv:
            if isinstance(v, SlV) and mods.get("seen") is None and v.bid is not None: mods["keepsl"][ins["r"]] = v.bid
        mods["seen"] = True
        s.do_havoc(fr, st, mods, pv, rec)
        st.loops[rec["key"]] = dict(rec, headregs={i["r"]: st.regs[fr.fid][i["r"]] for i, _ in pv}, headobjs=dict(st.objs), headbacks=dict(st.backs), headcomps=dict(st.comps), headiters=dict(st.iters))
        st.writes = []
        now = st.now
        drec = st.loops[rec["key"]]; drec["dryrec"] = rec["dryrec"]; drec["now"] = now
        s.dryrecs = getattr(s, "dryrecs", [])
        s.exec_instrs(fr, fr.fn["blocks"][bi], 0, st, None)
        s.dry.pop()
        changed = False
        for d in rec["dryrec"]:
            for kk in ("objs", "backs", "iters"):
                new = d[kk] - mods[kk]
                if new: mods[kk] |= new; changed = True
            if d["now"] and not mods["now"]: mods["now"] = True; changed = True
            for r in d["dropkeep"]:
                if r in mods["keepsl"]: del mods["keepsl"][r]; changed = True
            for c, refs in d["comps"].items():
                cur = mods["comps"].get(c, set()) if c in mods["comps"] else set()
                if c in mods["comps"] and mods["comps"][c] is None: continue
                if refs is None:
                    mods["comps"][c] = None; changed = True
                else:
                    n = cur | refs
                    if c not in mods["comps"] or n != cur: mods["comps"][c] = n; changed = True
        return changed

    def loop_back(s, fr, bi, prev, st):
        key = s.loop_key(fr, bi); rec = st.loops.get(key)
        if rec is None: raise Unsupported("irreducible loop")
        blk = fr.fn["blocks"][bi]
        pv = s.phi_vals(fr, blk, prev, st)
        if s.dry and s.dry[-1][0] == fr.fid and rec.get("dryrec") is not None and s.is_dry_loop(fr, bi):
            d = {"objs": set(), "backs": set(), "iters": set(), "comps": {}, "now": st.now != rec["now"], "dropkeep": set()}
            for oid, v in rec["headobjs"].items():
                for path in s.diff_leaves(v, st.objs.get(oid), ()): d["objs"].add((oid, path))
            for bid, b in rec["headbacks"].items():
                nb = st.backs.get(bid)
                if nb is not b and (nb.content != b.content or nb.hw != b.hw): d["backs"].add(bid)
            for iid, I in rec["headiters"].items():
                if st.iters[iid].done != I.done: d["iters"].add(iid)
            for (c, ref) in st.writes:
                inv = ref is not None and s.older(ref, rec["snap"])
                if not inv:
                    if ref is not None and s.is_loop_fresh(st, rec, ref) and False: continue
                    d["comps"][c] = None
                elif d["comps"].get(c, set()) is not None:
                    d["comps"].setdefault(c, set()).add(ref)
            for ins, v in pv:
                if isinstance(v, SlV) and ins["r"] in rec["mods"]["keepsl"]:
                    kb = rec["mods"]["keepsl"][ins["r"]]
                    if v.bid != kb or kb in d["backs"] or kb in rec["mods"]["backs"]: d["dropkeep"].add(ins["r"])
            rec["dryrec"].append(d)
            return
        if s.dry: return
        for ins, v in pv:
            if isinstance(v, SlV) and ins["r"] not in rec["mods"]["keepsl"]:
                s.oblige(st, "slice %s owns its tail" % (ins.get("comment") or ins["r"]), s.owned(st, v), s.tags_safety(), "safety", pos=ins["pos"])
        for n, v in s.obj_slices(st, rec["mods"]): s.oblige(st, "slice in %s owns its tail" % n, s.owned(st, v), s.tags_safety(), "safety")
        for ins, v in pv: st.regs[fr.fid][ins["r"]] = v
        if s.total(): s.check_ways(fr, st, rec, pv)
        s.check_cands(fr, st, rec, "preserve")
        s.paths += 1
    def older(s, t, snap):
        """The term denotes something fixed before symbol number snap."""
        for h, n in re.findall(r"([A-Za-z_0-9]*)!(\d+)", t):
            if int(n) > snap:
                d = getattr(s, "memodef", {}).get("%s!%s" % (h, n))
                if d is None or not s.older(d, snap): return False
        return True
    def is_loop_fresh(s, st, rec, ref): return False
    def is_dry_loop(s, fr, bi):
        L = load.loops(fr.fn)
        return s.dry[-1][1] is L.get(bi) or s.dry[-1][1] == L.get(bi)

    # ------------------------------------------------------------ termination
    def total(s): return s.sp.total
    def ways(s, fr, st, rec):
        """Why the loop ends: terms of the contract that grow smaller, as they are at the loop's head."""
        out = []; s.varn = getattr(s, "varn", 0)
        for vi, (bs, e, uses, line) in enumerate(s.c.variants if s.c else []):
            for bind in s.bindings(fr, st, rec, bs):
                def value(s2, bind=bind, e=e):
                    env = s.env(s2)
                    for nm, ident, get in bind:
                        v = get(s2)
                        if v is None: return None, env
                        env["names"][nm] = v
                    return s.svt(s.ev(e, env, "both"), env), env
                try: t, env = value(st)
                except KeyError: continue
                if t is None: continue
                facts = s.pending()
                for u in uses: facts += s.use(u, env) + s.pending()
                out.append(("v%d|%s" % (vi, ",".join(b[1] for b in bind)), "line %d" % line, value, t, facts))
        return out
    def again(s, fr, st, blk, new, o):
        """The value an operand of the loop's head will have in the next round."""
        if o["k"] != "reg": return s.operand(fr, st, o)
        if o["n"] in new: return new[o["n"]]
        for ins in blk["instrs"]:
            if ins.get("r") == o["n"]:
                if ins["op"] == "BinOp" and ins["tok"] in ("+", "-"):
                    x = s.again(fr, st, blk, new, ins["x"]); y = s.again(fr, st, blk, new, ins["y"])
                    if x is None or y is None or s.sort(x.ty) != "Int": return None
                    return TV(x.ty, Add(x.t, y.t) if ins["tok"] == "+" else "(- %s %s)" % (x.t, y.t))
                if ins["op"] == "Call" and ins["call"].get("fn", {}).get("k") == "builtin" and ins["call"]["fn"].get("n") == "len":
                    x = s.again(fr, st, blk, new, ins["call"]["args"][0])
                    return s.builtin(fr, ins, st, "len", [x]) if x is not None and not isinstance(x, TV) else None
                return None
        return s.operand(fr, st, o)
    def check_ways(s, fr, st, rec, pv):
        key = rec["key"]; blk = rec["blk"]; alts = []
        for iid, I in rec["headiters"].items():
            J = st.iters.get(iid)
            if J is not None and J.done != I.done and any(i["op"] == "Next" and isinstance(st.regs[fr.fid].get(i["x"]["n"]), IterV) and st.regs[fr.fid][i["x"]["n"]].iid == iid for i in blk["instrs"]):
                h = st.fork(); h.comps = dict(rec["headcomps"])
                d0 = Sel(s.mapdom(h, J.ty), J.m.t); d1 = Sel(s.mapdom(st, J.ty), J.m.t)
                if d0 == d1: g = "true"
                else:
                    k = s.fresh(J.ks, "gain"); g = "(=> (select %s %s) (select %s %s))" % (d1, k, d0, k)
                alts.append(("map", "the map it ranges over gains no key", g, []))
        last = blk["instrs"][-1]
        if not alts and last["op"] == "If":
            c = [i for i in blk["instrs"] if i.get("r") == last["x"].get("n") and i["op"] == "BinOp" and i["tok"] in ("<", "<=", ">", ">=", "!=")]
            if c:
                c = c[0]; new = dict((i["r"], v) for i, v in pv)
                try:
                    x0, y0 = s.operand(fr, st, c["x"]), s.operand(fr, st, c["y"])
                    if c["x"].get("n") in rec["headregs"]: x0 = rec["headregs"][c["x"]["n"]]
                    if c["y"].get("n") in rec["headregs"]: y0 = rec["headregs"][c["y"]["n"]]
                    x1, y1 = s.again(fr, st, blk, new, c["x"]), s.again(fr, st, blk, new, c["y"])
                    if all(isinstance(z, TV) and s.sort(z.ty) == "Int" for z in (x0, y0, x1, y1)):
                        for nm, a0, b0, a1, b1 in (("up", y0.t, x0.t, y1.t, x1.t), ("down", x0.t, y0.t, x1.t, y1.t)):
                            alts.append((nm, "what its condition compares draws nearer", "(and (>= (- {0} {1}) 0) (< (- {2} {3}) (- {0} {1})))".format(a0, b0, a1, b1), []))
                except (KeyError, Unsupported): pass
        old = st.regs[fr.fid]; st.regs[fr.fid] = dict(old)
        for ins, v in pv: st.regs[fr.fid][ins["r"]] = v
        for wid, label, value, t0, facts in rec.get("ways", []):
            try: t1, _ = value(st)
            except KeyError: t1 = None
            pend = s.pending()
            if t1 is not None: alts.append((wid, "the variant of " + label + " decreases", "(and (>= %s 0) (< %s %s))" % (t0, t1, t0), facts + pend))
        st.regs[fr.fid] = old
        if not alts: alts.append(("none", "no variant is known", "false", []))
        for wid, label, g, extra in alts:
            o = Oblig(short(s.fname), "the loop ends: " + label, s.tags_safety(), st.pc + extra, g, "variant", " ".join(st.trace), None, s.loop_pos(blk), len(st.pc))
            o.alt = (key, wid); s.obs.append(o)
    def loop_pos(s, blk):
        for i in blk["instrs"]:
            if i.get("pos"): return i["pos"]
        return ""
    def check_descent(s, st, c, e0, pos):
        """A recursive call is on something smaller."""
        if not s.total() or s.c is None or not s.recursive(c.name): return
        g = "false"
        if c.decreases is not None and s.c.decreases is not None:
            a = s.svt(s.ev(c.decreases, e0, "both"), e0); b = s.svt(s.ev(s.c.decreases, s.env(s.entry_state(st)), "both"), s.env(s.entry_state(st)))
            g = "(and (>= %s 0) (< %s %s))" % (b, a, b)
        pend = s.pending()
        s.oblige(st, "recursion ends: the call of %s is on something smaller" % c.name, g, s.tags_safety(), "variant", pos=pos, extra=pend)
    def recursive(s, callee):
        """Whether the callee may call the function being verified."""
        me = short(s.fname); seen = set(); todo = [callee]
        byname = {}
        for n, f in s.mod.funcs.items(): byname.setdefault(short(n), f)
        while todo:
            n = todo.pop()
            if n == me: return True
            if n in seen or n not in byname: continue
            seen.add(n)
            for b in byname[n]["blocks"]:
                for i in b["instrs"]:
                    for x in ([i["call"]["fn"]] if i.get("call", {}).get("fn") else []) + ([i["fn"]] if i["op"] == "MakeClosure" else []):
                        if x.get("n"): todo.append(short(x["n"]))
        return False

    # ------------------------------------------------------------ invariants
    def cand_instances(s, fr, st, rec):
        """All candidate invariants of a loop: (id, thunk(env)->term)."""
        out = []
        key = rec["key"]
        out += s.auto_cands(fr, st, rec)
        if s.c:
            for ci, (bs, e, line) in enumerate(s.c.cands):
                parts = s.cand_parts(e)
                for bind in s.bindings(fr, st, rec, bs):
                    for lab, e2 in parts:
                        cid = "%s|c%d%s|%s" % (key, ci, lab, ",".join(b[1] for b in bind))
                        out.append((cid, "line %d%s %s" % (line, lab, ",".join(b[1] for b in bind)), (bs, bind, e2)))
        return out
    def cand_parts(s, e):
        if e[0] == "call" and e[1] in s.sp.defs and isinstance(s.sp.defs[e[1]][1], list):
            ps, body = s.sp.defs[e[1]]
            m = dict(zip(ps, e[2]))
            out = []
            for l, b in body:
                for l2, b2 in s.cand_parts(subst(b, m)): out.append(("." + l + l2, b2))
            return out
        if e[0] == "imp" and e[2][0] == "call" and e[2][1] in s.sp.defs and isinstance(s.sp.defs[e[2][1]][1], list):
            return [(l, ("imp", e[1], b)) for l, b in s.cand_parts(e[2])]
        return [("", e)]
    def bindings(s, fr, st, rec, bs):
        opts = [s.bind_options(fr, st, rec, kind) for _, kind in bs]
        res = [[]]
        for (nm, kind), os_ in zip(bs, opts):
            res = [r + [(nm, o[0], o[1])] for r in res for o in os_ if not any(x[1] == o[0] for x in r)]
        return res
    def bind_options(s, fr, st, rec, kind):
        return s.model.bind_options(s, fr, st, rec, kind)
    def active_iters(s, st):
        """Iterators of the active loops, innermost last: (name, iter)."""
        out = []; seen = set()
        for key, r in st.loops.items():
            for ins in r["blk"]["instrs"]:
                if ins["op"] == "Next":
                    it = st.regs.get(r["fid"], {}).get(ins["x"]["n"])
                    if isinstance(it, IterV) and it.iid in st.iters and it.iid not in seen:
                        seen.add(it.iid); out.append((st.iters[it.iid].reg, st.iters[it.iid], r))
        return out
    def auto_cands(s, fr, st, rec):
        out = []; key = rec["key"]
        # iteration: every visited key was in the map when the iteration began
        for nm, I, r in s.active_iters(st):
            if r["key"] == key:
                out.append(("%s|done-in-dom|%s" % (key, nm), "visited keys are keys", ("py", lambda s2, st2, nm=nm: s.py_done_dom(st2, nm))))
        # frame relative to loop entry
        for c, refs in sorted(rec["mods"]["comps"].items()):
            if refs is None:
                out.append(("%s|frame-entry|%s" % (key, c), "loop frame %s" % c, ("py", lambda s2, st2, c=c: s.py_frame_entry(st2, c))))
                out.append(("%s|frame-loop|%s" % (key, c), "loop frame (objects of the loop entry) %s" % c, ("py", lambda s2, st2, c=c, rec=rec: s.py_frame_loop(st2, c, rec))))
        for (r, v) in rec["pv"].items():
            if isinstance(v, TV) and v.ty is not None and s.sort(v.ty) == "Int" and isnum(v.t):
                out.append(("%s|lo|%s" % (key, r), "%s >= %s" % (r, v.t), ("py", lambda s2, st2, r=r, v=v, f=rec["fid"]: Le(v.t, st2.regs[f][r].t))))
                for j, bnd in enumerate(s.int_bounds(fr, rec, r)):
                    out.append(("%s|hi|%s|%s" % (key, r, bnd[0]), "%s bounded" % r, ("py", lambda s2, st2, r=r, b=bnd, f=rec["fid"]: s.py_bound(st2, f, r, b))))
        out += s.model.auto_cands(s, fr, st, rec)
        return out
    def int_bounds(s, fr, rec, r):
        """Upper bounds suggested by comparisons in the loop: (name, reg, op)."""
        out = []; fn = fr.fn; body = load.loops(fn)[rec["bi"]]
        add = {r}
        for b in body:
            for ins in fn["blocks"][b]["instrs"]:
                if ins["op"] == "BinOp" and ins["tok"] == "+" and ins["x"]["k"] == "reg" and ins["x"]["n"] == r: add.add(ins["r"])
        for b in body:
            for ins in fn["blocks"][b]["instrs"]:
                if ins["op"] == "BinOp" and ins["tok"] in ("<", "<=", "!=", ">", ">=") and ins["x"]["k"] == "reg" and ins["x"]["n"] in add and ins["y"]["k"] == "reg":
                    out.append((ins["y"]["n"], ins["y"]["n"], 0 if ins["x"]["n"] == r else 1))
        return out
    def py_bound(s, st, f, r, b):
        y = st.regs[f].get(b[1])
        if y is None or not isinstance(y, TV): return None
        return Le(Add(st.regs[f][r].t, num(b[2])), y.t)
    def py_done_dom(s, st, nm):
        for n2, I, r in s.active_iters(st):
            if n2 == nm:
                q = "k?%d" % (s.n + 1); s.n += 1
                return "(forall ((%s %s)) (! (=> (select %s %s) (select %s %s)) :pattern ((select %s %s))))" % (q, I.ks, I.done, q, I.dom0, q, I.done, q)
        return None
    def py_frame(s, st, c, t0, now0, conds):
        cur = st.comps[c]
        if cur == t0: return "true"
        s.n += 1; q = "r?%d" % s.n
        return "(forall ((%s Ref)) (! (=> %s (= (select %s %s) (select %s %s))) :pattern ((select %s %s))))" % (q, And("(< (birth %s) %s)" % (q, now0), *[x(q) for x in conds]), cur, q, t0, q, cur, q)
    def mod_conds(s, st, comp):
        def mk(v, e):
            def f(q):
                env = s.env(s.entry_state(st)); env["names"][v] = SV("Ref", q); env["state"] = s.entry_state(st)
                return Not(s.ev_bool(e, env, "prove"))
            return f
        return [mk(v, e) for v, e, cs in s.mod_disjuncts(s.c.modifies if s.c else [], s.env(s.entry_state(st))) if s.speaks(cs, comp)]
    def py_frame_entry(s, st, c):
        return s.py_frame(st, c, s.model_comps[c][1], s.now0, s.mod_conds(st, c))
    def py_frame_loop(s, st, c, rec):
        e = rec["entry"]
        return s.py_frame(st, c, e.comps.get(c, s.model_comps[c][1]), e.now, s.mod_conds(st, c))
    def cand_term(s, st, rec, inst, mode):
        cid, label, body = inst
        if body[0] == "py": return body[1](s, st)
        bs, bind, e = body
        env = s.env(st)
        for nm, ident, get in bind:
            v = get(st)
            if v is None: return None
            env["names"][nm] = v
        env["pre"] = rec["entry"]
        return s.ev_bool(e, env, mode)
    def live(s, fr, st, rec):
        key = rec["key"]
        insts = s.cand_instances(fr, st, rec)
        reg = s.cands.setdefault(key, {})
        for cid, label, b in insts:
            if cid not in reg: reg[cid] = label
        if getattr(s, "hint", None) is not None: return [i for i in insts if i[0] in s.hint]
        return [i for i in insts if i[0] not in s.dropped and (s.allow is None or i[0] in s.allow) and (s.near is None or near(i[0]) in s.near)]
    def check_cands(s, fr, st, rec, when):
        extra = []
        if s.c:
            for u in s.c.uses:
                if u[0] == "call" and u[1] == "atloops":
                    extra += s.use(u[2][0], s.env(st))
        s.covers.append(("loop %s" % when, list(st.pc + extra)))
        for inst in s.live(fr, st, rec):
            try: t = s.cand_term(st, rec, inst, "prove")
            except KeyError: t = None
            pend = s.pending()
            if t is None:
                s.dropped.add(inst[0]); s.redo = True; continue
            for g in conjuncts(t):
                if g == "true" and when == "preserve": continue
                if when == "init" and g == "false": s.dropped.add(inst[0]); s.redo = True; continue
                s.obs.append(Oblig(short(s.fname), "loop invariant (%s) %s" % (when, inst[1]), (), st.pc + extra + pend, g, "inv", " ".join(st.trace), inst[0], "", len(st.pc) + len(extra)))
        st.pc += extra
    def assume_cands(s, fr, st, rec):
        for inst in s.live(fr, st, rec):
            try: t = s.cand_term(st, rec, inst, "assume")
            except KeyError: t = None
            st.pc += s.pending()
            if t is not None and t != "true": st.pc.append(CandTerm(t, inst[0]))
        if s.c:
            for u in s.c.uses:
                if u[0] == "call" and u[1] == "atloops":
                    st.pc += s.use(u[2][0], s.env(st))

def near(cid):
    """What a candidate says, apart from which loop and which variables it says it of."""
    ps = cid.split("|")[1:]
    if re.match(r"c\d+", ps[0]): return ps[0]
    return "|".join(x for x in ps if not re.match(r"([to]?\d+|.*[#/,].*|)$", x))
def short_ext(name): return name
