"""Memory model and contracts for pkg/etx.

The tree a function is given is immutable (property E07, and E04 for the
parent links, see that the code keeps it so): the content of the object at
reference r of type T is ct_T(r), a struct value whose fields are f_T_<field>.
Objects a function makes are tracked concretely until they escape."""
import re, json, os
from smt import *
import exec as X
from exec import *
from model import Model
import load

ETX = "github.com/hexbee-net/etxe/pkg/etx"
def sane(s): return re.sub(r"[^A-Za-z0-9_$]", "_", s)

KEEP = {  # which kinds of obligation each property is responsible for
    "E01": {"post", "inv", "safety"}, "E02": {"post", "inv", "pre"}, "E03": {"post", "inv", "safety"}, "E04": {"post", "frame", "pre", "inv", "safety"},
    "E05": {"safety", "pre", "inv"}, "E06": {"post", "inv", "pre", "safety"}, "E07": {"frame"}, "E08": {"post", "safety", "inv", "pre"}, "E09": {"post", "safety", "inv", "pre"},
    "E10": {"post", "inv", "safety"}, "E11": {"post", "pre", "safety"}, "E12": {"post", "pre", "safety"},
}

# ---------------------------------------------------------------- the grammar in the struct tags
class G:
    """Which combinations of fields a production can fill in."""
    def __init__(s, fields):
        s.toks = []
        for name, tag in fields:
            for m in re.finditer(r"\s*('(?:[^'\\]|\\.)*'|\"(?:[^\"\\]|\\.)*\"|@@|[@|()\[\]{}?*+!]|[A-Za-z_]\w*(?::\w+)?)", tag): s.toks.append((m.group(1), name))
        s.i = 0
    def peek(s): return s.toks[s.i][0] if s.i < len(s.toks) else None
    def run(s):
        r = s.alt()
        if s.peek() is not None: raise Unsupported("grammar: unexpected %r" % (s.peek(),))
        return r
    def alt(s):
        r = s.seq()
        while s.peek() == "|": s.i += 1; r = r | s.seq()
        return r
    def seq(s):
        r = {frozenset()}
        while s.peek() not in (None, "|", ")", "]", "}"):
            t = s.term(); r = {a | b for a in r for b in t}
        return r
    def term(s):
        neg = False
        if s.peek() == "!": neg = True; s.i += 1
        r = s.atom()
        p = s.peek()
        if p in ("?", "*", "+", "!"):
            s.i += 1
            if p in ("*", "+"): r = s.closure(r)
            if p in ("?", "*"): r = r | {frozenset()}
        return {frozenset()} if neg and not any(r) else r
    def closure(s, r):
        out = set(r)
        while True:
            n = out | {a | b for a in out for b in r}
            if n == out: return out
            out = n
    def atom(s):
        t, f = s.toks[s.i]; s.i += 1
        if t == "(": r = s.alt(); s.need(")"); return r
        if t == "[": r = s.alt(); s.need("]"); return r | {frozenset()}
        if t == "{": r = s.alt(); s.need("}"); return s.closure(r) | {frozenset()}
        if t == "@@": return {frozenset([f])}
        if t == "@":
            r = s.atom(); return {a | {f} for a in r}
        return {frozenset()}
    def need(s, c):
        if s.peek() != c: raise Unsupported("grammar: expected %s" % c)
        s.i += 1

class Types:
    """What the type declarations say about the tree."""
    def __init__(s, mod):
        s.mod = mod; s.T = {}
        for k, m in mod.types.items():
            if m["k"] == "named" and m.get("pkg") == ETX and "[" not in k:
                ty = mod.ty(k)
                if ty.under.k == "struct": s.T[ty.name] = ty
    def fields(s, ty): return ty.under.fields
    def is_astnode(s, ty): return ty.k == "named" and ty.name == "ASTNode" and ty.pkg == ETX
    def is_tree(s, ty): return ty.k == "named" and ty.pkg == ETX and ty.under.k == "struct" and not s.is_astnode(ty)
    def is_node(s, ty):
        if not s.is_tree(ty): return False
        ms = s.mod.methodset("*" + ty.key) or {}
        return "Children" in ms and "Node" in ms
    def patterns(s, ty):
        fs = []
        for name, fty, emb, tag in s.fields(ty):
            if s.is_astnode(fty): continue
            m = re.search(r'parser:"((?:[^"\\]|\\.)*)"', tag or "")
            if m: fs.append((name, m.group(1).encode().decode("unicode_escape")))
        if not fs: return None
        return G(fs).run()

# ---------------------------------------------------------------- contracts
class Contract:
    """Specification of one function; generated from the type declarations
    (and, for the formatters, from contracts/etx_layout.py)."""
    alloc = False
    def __init__(s, name, kind, T=None, props=()):
        s.name = name; s.kind = kind; s.T = T; s.props = set(props)
        s.params = []; s.results = []; s.requires = []; s.ensures = []; s.modifies = []; s.allocates = []; s.cands = []; s.uses = []; s.touches = []; s.delivers = []
        s.tags = set(props); s.opts = set()
    def fits(s, run, fn, env): return True
    def pre(s, run, st, args, mode): return []
    def post(s, run, st, args, res, mode): return []
    def results_of(s, run, st, fn, env, args):
        rt = run.mod.ty(fn["results"], env)
        return [run.model.freshv(run, st, t, "res") for t in (rt.elems or [])]
    def apply(s, run, fr, ins, st, fn, env, args, cont):
        run.calls.add(s.name)
        s.tenv = env; s.fn = fn
        for lab, g in s.pre(run, st, args, "prove"):
            run.oblige(st, "precondition %s of %s" % (lab, s.name), g, (), "pre", pos=ins.get("pos", ""))
            if g != "true": st.pc.append(g)
        if s.alloc:
            nn = run.fresh("Int", "now"); st.pc.append("(>= %s %s)" % (nn, st.now)); st.now = nn
        res = s.results_of(run, st, fn, env, args)
        for lab, g in s.post(run, st, args, res, "assume"):
            if g != "true": st.pc.append(g)
        cont(st, run.pack(res))

class Clone(Contract):
    alloc = True
    def pre(s, run, st, args, mode):
        M = run.model; nilok = s.nilok
        if nilok: return []
        a = args[0]
        return [("receiver", Not(M.isnil(run, st, a)))] if M.isptr(a) else []
    @property
    def nilok(s): return s.T.name not in ("HeredocDelimiter",)
    def post(s, run, st, args, res, mode):
        M = run.model; T = s.T; a, r = args[0], res[0]
        prop = run.sp.prop; out = []
        if prop not in ("E01", "E02"): return out
        pa, pr = M.isptr(a), M.isptr(r)
        na = M.isnil(run, st, a) if pa else "false"; nr = M.isnil(run, st, r) if pr else "false"
        V = M.vsort(run, T)
        if prop == "E01": out.append(("an absent node stays absent, a present one present", Eq(na, nr)))
        if mode == "assume":
            if prop == "E01":
                if pa and pr: run.fun("eqp_" + V, ["Ref", "Ref"], "Bool"); out.append(("", App("eqp_" + V, M.ref(run, st, a), M.ref(run, st, r))))
                run.fun("eqv_" + V, [V, V], "Bool")
                out.append(("", Imp(Not(na), App("eqv_" + V, M.view(run, st, a, T), M.view(run, st, r, T)))))
                if M.types.is_astnode(T): out.append(("", M.unfold_eq(run, T, M.view(run, st, a, T), M.view(run, st, r, T), 0)))
            else:
                if pr: run.fun("frp_" + V, ["Ref"], "Bool"); out += [("", App("frp_" + V, M.ref(run, st, r))), ("", Imp(Not(nr), "(>= (birth %s) %s)" % (M.ref(run, st, r), run.now0)))]
                run.fun("frv_" + V, [V], "Bool"); out.append(("", Imp(Not(nr), App("frv_" + V, M.view(run, st, r, T)))))
                if M.types.is_astnode(T): out.append(("", M.unfold_fr(run, T, M.view(run, st, r, T), 0)))
            return out
        if nr == "true" or na == "true": return out
        if prop == "E01":
            va, vr = M.view(run, st, a, T), M.view(run, st, r, T)
            for lab, g in M.fields_eq(run, T, va, vr, 1): out.append(("%s is copied" % lab, Imp(And(Not(na), Not(nr)), g)))
        else:
            if pr: out.append(("the node is new", Imp(Not(nr), "(>= (birth %s) %s)" % (M.ref(run, st, r), run.now0))))
            vr = M.view(run, st, r, T)
            for lab, g in M.fields_fr(run, T, vr, 1): out.append(("%s is not shared" % lab, Imp(Not(nr), g)))
        return out

class CloneSlice(Contract):
    """cloneCollection, cloneStrings"""
    alloc = True
    def post(s, run, st, args, res, mode):
        M = run.model; a, r = args[0], res[0]; out = []; prop = run.sp.prop
        if prop not in ("E01", "E02"): return out
        env = {} if mode == "prove" else s.tenv
        if prop == "E01": return M.slice_eq_goals(run, st, a, r)
        return M.slice_fr_goals(run, st, r)

class Children(Contract):
    alloc = True
    def pre(s, run, st, args, mode):
        M = run.model; a = args[0]; out = []
        if M.isptr(a): out.append(("receiver", Not(M.isnil(run, st, a))))
        if run.sp.prop in ("E03",): out.append(("shape", M.shape(run, s.T, M.view(run, st, a, s.T))))
        return out
    def post(s, run, st, args, res, mode):
        if run.sp.prop != "E03": return []
        return run.model.kids_goals(run, st, s.T, args[0], res[0])

class Formatted(Contract):
    def pre(s, run, st, args, mode):
        M = run.model; a = args[0]; out = []; p = run.sp.prop
        if M.isptr(a): out.append(("receiver", Not(M.isnil(run, st, a))))
        if p in ("E05", "E06"):
            V = M.vsort(run, s.T); run.fun("valid_" + V, [V], "Bool")
            if mode == "assume": M.valid_axioms(run, s.T)
            if p == "E05" or mode == "assume": out.append(("validity", App("valid_" + V, M.view(run, st, a, s.T))))
        return out
    def post(s, run, st, args, res, mode):
        M = run.model
        if run.sp.prop != "E06": return []
        V = M.vsort(run, s.T); f = run.fun("fmt_" + V, [V], "String")
        v = M.view(run, st, args[0], s.T)
        if mode == "assume": return [("text", Eq(run.term(st, res[0]), App(f, v)))]
        t = M.layout(run, s.T, v)
        if t is None: raise Unsupported("no layout for " + s.T.name)
        st.pc += M.join_facts(run, st)
        return [("the text is laid out as the %s construct prescribes" % s.T.name, Eq(run.term(st, res[0]), t))]
    def results_of(s, run, st, fn, env, args):
        if run.sp.prop != "E06": return Contract.results_of(s, run, st, fn, env, args)
        M = run.model; V = M.vsort(run, s.T); f = run.fun("fmt_" + V, [V], "String")
        return [StrV([("t", App(f, M.view(run, st, args[0], s.T)))], run.mod.ty(fn["results"], env).elems[0])]

class Indent(Contract):
    """indent(s, prefix): the function that E10 pins down"""
    def post(s, run, st, args, res, mode):
        if run.sp.prop == "E10": return run.model.indent_goals(run, st, args, res, mode)
        return []
    def results_of(s, run, st, fn, env, args):
        f = run.fun("ind", ["String", "String"], "String")
        return [StrV([("t", App(f, run.term(st, args[0]), run.term(st, args[1])))], run.mod.ty(fn["results"], env).elems[0])]

class EtxSpec:
    total = False
    def __init__(s, mod, prop):
        s.prop = prop; s.defs = {}; s.contracts = {}; s.mod = mod
        s.types = Types(mod)
        for n, f in mod.funcs.items():
            if f.get("synth") or f.get("parent") or not f["blocks"]: continue
            if f.get("pkg") and f["pkg"] != ETX: continue
            sh = short(n); meth = sh.split(".")[-1]; T = s.types.T.get(sh.split(".")[0]) if "." in sh else None
            c = None
            if T is not None and meth == "Clone": c = Clone(sh, "clone", T, ("E01", "E02", "E07"))
            elif T is not None and meth == "Children": c = Children(sh, "children", T, ("E03", "E07"))
            elif T is not None and meth == "FormattedString": c = Formatted(sh, "format", T, ("E05", "E06", "E07"))
            elif sh in ("cloneCollection", "cloneStrings"): c = CloneSlice(sh, "cloneslice", None, ("E01", "E02", "E07"))
            elif sh == "indent": c = Indent(sh, "indent", None, ("E05", "E07"))
            if c is not None: s.contracts[sh] = c
        import etxmore
        etxmore.contracts(s)
    def functions(s, prop):
        return sorted(n for n, c in s.contracts.items() if prop in c.props)

# ---------------------------------------------------------------- the model
class EtxModel(Model):
    comps = {}
    def __init__(s, mod):
        Model.__init__(s); s.mod = mod; s.types = Types(mod); s.parsedwith = []
        import etxmore
        s.models = dict(MODELS); s.models.update(etxmore.MODELS)
    def init(s, run): s.run = run
    def begin(s, run):
        s.pend = []; run.layouts = {}; run.joins = []; run.axdone = set(); run.usedlemmas = set(); run.errs = []
    def keeps(s, kind, name):
        k = KEEP[s.run.sp.prop]
        return kind in k or kind == "frame" or name == "slice bounds" or "owns its tail" in name      # what the other facts are built on
    def track(s, es): return False
    def local_store(s, run, fr, st, p, ins):
        if run.sp.prop == "E07" and not run.dry: run.oblige(st, "the object written at %s was made by this call" % ins.get("pos", ""), "true", (), "frame", pos=ins.get("pos", ""))
    # ---- values
    def vsort(s, run, ty): so = run.sort(ty); run.use_sort(so); return so
    def param(s, run, st, ty, n, i):
        v = run.c.param(run, st, ty, n, i) if run.c is not None and hasattr(run.c, "param") else None
        return v if v is not None else s.freshv(run, st, ty, n)
    def concrete_map(s, run, st, ty, ins):
        import etxlex
        return etxlex.concrete_map(s, run, st, ty, ins)
    def concrete_update(s, run, st, m, k, v):
        import etxlex
        return etxlex.concrete_update(s, run, st, m, k, v)
    def freshv(s, run, st, ty, hint):
        u = ty.under
        if u.k == "slice" and not (u.elem.under.k == "basic" and u.elem.under.name == "uint8"):
            return s.slice_unterm(run, st, ty, run.fresh("Sl", hint))
        if u.k == "slice": return s.bytes_fresh(run, st, ty, hint)
        if u.k == "struct": return TV(ty, run.fresh(s.vsort(run, ty), hint))
        if u.k == "tuple": return TupV([s.freshv(run, st, e, hint) for e in u.elems])
        return run.freshval(st, ty, hint)
    def bytes_fresh(s, run, st, ty, hint):
        import etxmore
        return etxmore.string_slice(s, run, st, ty, StrV([("t", run.fresh("String", hint))]), False)
    def string_slice(s, run, st, ty, v):
        import etxmore
        return etxmore.string_slice(s, run, st, ty, v, True)
    def grown(s, run, st, ety, old, new, off, ln, vt):
        import etxmore
        if etxmore.isbyte(ety): etxmore.grown(s, run, st, old, new, off, ln, vt)
    def append_facts(s, run, st, es, content, x, xb, y, yb):
        import etxmore
        if etxmore.isbyte(y.ty.under.elem): etxmore.joined(s, run, st, content, x, xb, y, yb)
    def sliced(s, run, st, x, r, lo):
        import etxmore
        if etxmore.isbyte(x.ty.under.elem): etxmore.cut(s, run, st, x, r, lo)
    def opaque_struct(s, ty): return ty.k == "named"
    def acc(s, run, ty, i):
        name, fty, emb, tag = ty.under.fields[i]
        V = s.vsort(run, ty); so = run.sort(fty)
        f = "f_%s_%s" % (V[2:], sane(name)); run.fun(f, [V], so); return f
    def opaque_field(s, run, st, x, i):
        fty = x.ty.under.fields[i][1]
        f = s.acc(run, x.ty, i)
        if run.sp.prop in ("E05", "E06"): s.valid_axioms(run, x.ty)
        return run.unterm(st, fty, App(f, x.t))
    def expand(s, run, st, v): return StV(v.ty, [s.opaque_field(run, st, v, i) for i in range(len(v.ty.under.fields))])
    def struct_unterm(s, run, st, ty, t): return TV(ty, t)
    def struct_term(s, run, st, v):
        key = ("st", id(v))
        if key in st.memo: return st.memo[key][1]
        V = s.vsort(run, v.ty)
        ts = [run.term(st, x) if not isinstance(x, SlV) else s.slice_term(run, st, x) for x in v.f]
        c = run.fresh(V, v.ty.name or "struct")
        for i, t in enumerate(ts): st.pc.append(Eq(App(s.acc(run, v.ty, i), c), t))
        st.memo[key] = (v, c); return c
    def ctf(s, run, ty):
        so = run.sort(ty); run.use_sort(so)
        f = "ct_" + sane(so); run.fun(f, ["Ref"], so); return f
    def slice_unterm(s, run, st, ty, t):
        key = ("sl", t)
        if key in st.memo:
            v = st.memo[key]; return SlV(ty, v.bid, v.off, v.ln, v.nilt, t)
        es = run.sort(ty.under.elem); run.use_sort(es)
        s.sldecl(run, es)
        ln, nl = App("sl_len", t), App("sl_nil", t)
        bid = run.newback(st, "(slc_%s %s)" % (sane(es), t), None, False, es, ty.under.elem)
        st.pc += ["(>= %s 0)" % ln, "(=> %s (= %s 0))" % (nl, ln)]
        v = SlV(ty, bid, "0", ln, nl, t); st.memo[key] = v
        return v
    def sldecl(s, run, es):
        run.fun("slc_" + sane(es), ["Sl"], "(Array Int %s)" % es); run.fun("sl_len", ["Sl"], "Int"); run.fun("sl_nil", ["Sl"], "Bool"); run.fun("sl_birth", ["Sl"], "Int")
    def slice_term(s, run, st, v):
        es = run.sort(v.ty.under.elem); run.use_sort(es); s.sldecl(run, es)
        if v.sl is not None and v.off == "0" and v.ln == App("sl_len", v.sl): return v.sl
        key = ("slt", id(v))
        if key in st.memo and (v.bid is None or st.memo[key][2] is st.backs[v.bid]): return st.memo[key][1]
        c = run.fresh("Sl", "sl")
        st.pc += [Eq(App("sl_len", c), v.ln), Eq(App("sl_nil", c), v.nilt)]
        b = None
        if v.bid is not None:
            b = st.backs[v.bid]
            if b.content is None: raise Unsupported("slice of mixed values stored")
            if v.off == "0": st.pc.append("(= (slc_%s %s) %s)" % (sane(es), c, b.content))
            else: st.pc.append("(forall ((i Int)) (! (= (select (slc_%s %s) i) (select %s (+ %s i))) :pattern ((select (slc_%s %s) i))))" % (sane(es), c, b.content, v.off, sane(es), c))
            m = re.match(r"^\(slc_\S+ (.*)\)$", b.content)
            if b.fresh: st.pc.append("(>= (sl_birth %s) %s)" % (c, run.now0))
            elif m: st.pc.append("(= (sl_birth %s) (sl_birth %s))" % (c, m.group(1)))
            nb = b.copy(); nb.shared = True; st.backs[v.bid] = nb; b = nb
        st.memo[key] = (v, c, b); return c
    def locp_term(s, run, st, v):
        if v.path:
            root = LocP(v.ty, v.oid, ())
            r = s.locp_term(run, st, root)
            return s.hpp_term(run, st, HpP(v.ty, r, st.objty[v.oid], v.path))
        if v.oid in st.objref: return st.objref[v.oid]
        ty = st.objty[v.oid]; content = st.objs[v.oid]
        if isinstance(content, StrV) and ty.under.k == "struct": raise Unsupported("address of a builder stored")
        t = run.term(st, content)
        r = run.alloc(st, "new"); f = s.ctf(run, ty)
        st.pc.append("(not (= %s nil))" % r) if False else None
        st.pc.append(Eq(App(f, r), t)); st.pc.append("(not (= %s nil))" % r)
        st.objref[v.oid] = r; st.pub.add(v.oid); return r
    def hpp_term(s, run, st, v):
        t = v.ref; ty = v.sty
        for i in v.path:
            name, fty, emb, tag = ty.under.fields[i]
            V = s.vsort(run, ty); f = "sub_%s_%s" % (V[2:], sane(name)); run.fun(f, ["Ref"], "Ref")
            u = App(f, t)
            if ("sub", u) not in st.memo:
                st.memo[("sub", u)] = True
                st.pc += ["(not (= %s nil))" % u, "(= (birth %s) (birth %s))" % (u, t)]
                if ty.k == "named": st.pc.append(Eq(App(s.ctf(run, fty), u), App(s.acc(run, ty, i), App(s.ctf(run, ty), t))))
            t = u; ty = fty
        return t
    def heap_load(s, run, st, p):
        import etxmore
        v = etxmore.heap_load(s, run, st, p)
        if v is not None: return v
        ty = p.sty
        v = run.unterm(st, ty, App(s.ctf(run, ty), p.ref))
        for i in p.path: v = run.field(st, v, i)
        return v
    def heap_store(s, run, fr, st, p, v, ins):
        import etxmore
        if etxmore.heap_store(s, run, fr, st, p, v, ins): return
        run.oblige(st, "does not write to the tree it is given", "false", (), "frame", pos=ins.get("pos", ""))
        if run.sp.prop in ("E05", "E07"): return
        raise Unsupported("write to the tree at %s" % ins.get("pos", ""))
    def store_published(s, run, fr, st, p, v, ins): raise Unsupported("write to an object that already escaped, at %s" % ins.get("pos", ""))
    def iface_term(s, run, st, v):
        so = run.sort(v.dyn); nm = "box_" + sane(v.dyn.key.replace(ETX + ".", "").replace("*", "p"))
        run.use_sort(so); run.fun(nm, [so], "Iface"); run.fun("un" + nm, ["Iface"], so)
        run.axiom("ax_" + nm, "(forall ((x %s)) (! (and (= (un%s (%s x)) x) (not (= (%s x) nilI))) :pattern ((%s x))))" % (so, nm, nm, nm, nm))
        return App(nm, run.term(st, v.v))
    def box(s, run, ty, t):
        """The interface value holding t of (pointer) type ty."""
        return s.iface_term(run, None, IfV(None, ty, TV(ty, t)))
    def isptr(s, v): return isinstance(v, (LocP, HpP)) or (isinstance(v, TV) and v.ty is not None and v.ty.under.k == "ptr")
    def isnil(s, run, st, v):
        if isinstance(v, (LocP, HpP)): return "false"
        return Eq(v.t, "nil")
    def ref(s, run, st, v): return run.term(st, v)
    def view(s, run, st, v, T):
        """The struct value behind a value or pointer."""
        if isinstance(v, LocP): return run.term(st, run.loadloc(st, v))
        if isinstance(v, HpP): return run.term(st, s.heap_load(run, st, v))
        if isinstance(v, TV) and v.ty is not None and v.ty.under.k == "ptr": return App(s.ctf(run, v.ty.under.elem), v.t)
        return run.term(st, v)
    def zero_obj(s, run, st, ety):
        if ety.key in ("strings.Builder", "bytes.Buffer"): return StrV([], ety)
        return run.zero(ety, st)
    def havoc_special(s, run, st, v, hint):
        return Model.havoc_special(s, run, st, v, hint)

    # ---- E01: structural equality
    def relp(s, run, ety, a, b, d):
        """Equality of two elements of Go type ety."""
        u = ety.under
        if ety.k == "tparam" or u.k == "tparam":
            so = run.sort(ety); run.fun("eqp_" + so, [so, so], "Bool"); return Or(Eq(a, b), App("eqp_" + so, a, b))
        if u.k == "ptr":
            U = u.elem
            if s.types.is_tree(U) or s.types.is_astnode(U):
                V = s.vsort(run, U); ct = s.ctf(run, U); run.fun("eqp_" + V, ["Ref", "Ref"], "Bool")
                return Or(Eq(a, b), App("eqp_" + V, a, b), And(Not(Eq(a, "nil")), Not(Eq(b, "nil")), s.relv(run, U, App(ct, a), App(ct, b), d)))
            ct = s.ctf(run, U)
            return Or(Eq(a, b), And(Not(Eq(a, "nil")), Not(Eq(b, "nil")), Eq(App(ct, a), App(ct, b))))
        if u.k == "struct":
            if s.types.is_tree(ety) or s.types.is_astnode(ety): return s.relv(run, ety, a, b, d)
            return Eq(a, b)
        if u.k == "slice":
            es = run.sort(u.elem); s.sldecl(run, es); c = "slc_" + sane(es)
            run.n += 1; q = "k?%d" % run.n
            el = s.relp(run, u.elem, "(select (%s %s) %s)" % (c, a, q), "(select (%s %s) %s)" % (c, b, q), d - 1 if d > 0 else 0)
            return Or(Eq(a, b), And(Eq(App("sl_nil", a), App("sl_nil", b)), Eq(App("sl_len", a), App("sl_len", b)),
                       "(forall ((%s Int)) (! (=> (and (<= 0 %s) (< %s (sl_len %s))) %s) :pattern ((select (%s %s) %s))))" % (q, q, q, a, el, c, b, q)))
        return Eq(a, b)
    def relv(s, run, U, a, b, d):
        V = s.vsort(run, U); run.fun("eqv_" + V, [V, V], "Bool")
        return Or(Eq(a, b), App("eqv_" + V, a, b), *([s.unfold_eq(run, U, a, b, d - 1)] if d > 0 or s.types.is_astnode(U) else []))
    def fields_eq(s, run, T, a, b, d):
        out = []
        for i, (name, fty, emb, tag) in enumerate(T.under.fields):
            if s.types.is_astnode(T) and name == "Parent": continue
            f = s.acc(run, T, i); out.append((name, s.relp(run, fty, App(f, a), App(f, b), d)))
        return out
    def unfold_eq(s, run, T, a, b, d): return And(*[g for _, g in s.fields_eq(run, T, a, b, d)])
    def slice_eq_goals(s, run, st, a, r):
        es = run.sort(a.ty.under.elem)
        out = [("absent iff absent", Eq(a.nilt, r.nilt)), ("same number of items", Eq(a.ln, r.ln))]
        if a.bid is None or r.bid is None: return out
        ac, rc = st.backs[a.bid].content, st.backs[r.bid].content
        run.n += 1; q = "k?%d" % run.n
        x, y = Sel(ac, Add(a.off, q)), Sel(rc, Add(r.off, q))
        out.append(("items equal and in order", "(forall ((%s Int)) (! (=> (and (<= 0 %s) (< %s %s)) %s) :pattern (%s)))" % (q, q, q, r.ln, s.relp(run, a.ty.under.elem, x, y, 0), y)))
        return out
    # ---- E02: nothing shared
    def freshp(s, run, ety, a, d):
        u = ety.under
        if ety.k == "tparam" or u.k == "tparam":
            so = run.sort(ety); run.fun("frp_" + so, [so], "Bool"); return App("frp_" + so, a)
        if u.k == "ptr":
            U = u.elem; b = "(>= (birth %s) %s)" % (a, run.now0)
            if s.types.is_tree(U) or s.types.is_astnode(U):
                V = s.vsort(run, U); run.fun("frp_" + V, ["Ref"], "Bool")
                return Or(Eq(a, "nil"), App("frp_" + V, a), And(b, s.freshs(run, U, App(s.ctf(run, U), a), d)))
            return Or(Eq(a, "nil"), b)
        if u.k == "struct":
            if s.types.is_tree(ety) or s.types.is_astnode(ety): return s.freshs(run, ety, a, d)
            return "true"
        if u.k == "slice":
            es = run.sort(u.elem); s.sldecl(run, es); c = "slc_" + sane(es)
            run.n += 1; q = "k?%d" % run.n
            el = s.freshp(run, u.elem, "(select (%s %s) %s)" % (c, a, q), d - 1 if d > 0 else 0)
            g = Or(App("sl_nil", a), "(>= (sl_birth %s) %s)" % (a, run.now0))
            if el != "true": g = And(g, "(forall ((%s Int)) (! (=> (and (<= 0 %s) (< %s (sl_len %s))) %s) :pattern ((select (%s %s) %s))))" % (q, q, q, a, el, c, a, q))
            return g
        if u.k == "iface": return Eq(a, "nilI")
        if u.k in ("map", "chan", "func"): return "false"
        return "true"
    def freshs(s, run, U, a, d):
        V = s.vsort(run, U); run.fun("frv_" + V, [V], "Bool")
        return Or(App("frv_" + V, a), *([s.unfold_fr(run, U, a, d - 1)] if d > 0 or s.types.is_astnode(U) else []))
    def fields_fr(s, run, T, a, d):
        out = []
        for i, (name, fty, emb, tag) in enumerate(T.under.fields):
            g = s.freshp(run, fty, App(s.acc(run, T, i), a), d)
            if g != "true": out.append((name, g))
        return out
    def unfold_fr(s, run, T, a, d): return And(*[g for _, g in s.fields_fr(run, T, a, d)])
    def slice_fr_goals(s, run, st, r):
        if r.bid is None: return []
        b = st.backs[r.bid]; out = []
        if r.sl is not None: own = Or(r.nilt, "(>= (sl_birth %s) %s)" % (r.sl, run.now0))
        else: own = "true" if b.fresh else r.nilt
        out.append(("the slice is new", own))
        run.n += 1; q = "k?%d" % run.n; y = Sel(b.content, Add(r.off, q))
        el = s.freshp(run, r.ty.under.elem, y, 0)
        if el != "true": out.append(("no item is shared", "(forall ((%s Int)) (! (=> (and (<= 0 %s) (< %s %s)) %s) :pattern (%s)))" % (q, q, q, r.ln, el, y)))
        return out
    # ---- E03: children
    def kid_items(s, run, T, v, ref):
        """(kind, field, presence, count, element at k)"""
        out = []
        for i, (name, fty, emb, tag) in enumerate(T.under.fields):
            u = fty.under; t = App(s.acc(run, T, i), v)
            if u.k == "ptr" and s.types.is_node(u.elem): out.append((name, Ite(Eq(t, "nil"), "0", "1"), Not(Eq(t, "nil")), lambda k, t=t, fty=fty: s.box(run, fty, t)))
            elif u.k == "slice" and u.elem.under.k == "ptr" and s.types.is_node(u.elem.under.elem):
                es = run.sort(u.elem); s.sldecl(run, es)
                out.append((name, App("sl_len", t), None, lambda k, t=t, e=u.elem, es=es: s.box(run, e, "(select (slc_%s %s) %s)" % (sane(es), t, k))))
            elif s.types.is_node(fty):
                pt = load.Ty("ptr", "*" + fty.key); pt.elem = fty
                def el(k, i=i, pt=pt, name=name):
                    V = s.vsort(run, T); f = "sub_%s_%s" % (V[2:], sane(name)); run.fun(f, ["Ref"], "Ref")
                    return s.box(run, pt, App(f, ref))
                out.append((name, "1", "true", el))
        return out
    def kids_goals(s, run, st, T, n, r):
        v = s.view(run, st, n, T); ref = s.ref(run, st, n); pos = "0"; out = []
        items = s.kid_items(run, T, v, ref)
        content = st.backs[r.bid].content if r.bid is not None else None
        def at(i):
            if content is None: return run.fresh("Iface", "none")
            return Sel(content, Add(r.off, i))
        for name, cnt, pres, el in items:
            if pres is None:
                run.n += 1; q = "k?%d" % run.n
                if content is not None: out.append(("%s in order" % name, "(forall ((%s Int)) (=> (and (<= 0 %s) (< %s %s)) (= %s %s)))" % (q, q, q, cnt, at(Add(pos, q)), el(q))))
            else:
                out.append((name, Imp(pres, And(Lt(pos, r.ln), Eq(at(pos), el("0"))))))
            pos = Add(pos, cnt) if cnt != "0" else pos
        out.append(("exactly the sub-nodes", Eq(r.ln, pos)))
        return out
    def shape(s, run, T, v):
        """Which pointer parts can be present together."""
        pats = s.types.patterns(T)
        if pats is None: return "true"
        ptrs = [(n, App(s.acc(run, T, i), v), f) for i, (n, f, e, t) in enumerate(T.under.fields) if f.under.k == "ptr" and s.types.is_node(f.under.elem) or f.under.k == "slice"]
        ptrs = [(n, Not(Eq(t, "nil")) if f.under.k == "ptr" else "(> (sl_len %s) 0)" % t) for n, t, f in ptrs]
        pp = {frozenset(n for n, _ in ptrs if n in p) for p in pats} | {frozenset()}
        return Or(*[And(*[t if n in p else Not(t) for n, t in ptrs]) for p in sorted(pp, key=sorted)])
    # ---- E05: what a parsed tree looks like
    def valid_axioms(s, run, T):
        if T.name is None or not s.types.is_tree(T) or ("valid", T.name) in run.axdone: return
        run.axdone.add(("valid", T.name))
        V = s.vsort(run, T); run.fun("valid_" + V, [V], "Bool"); x = "x"
        body = s.valid_body(run, T, x)
        if body == "true": return
        pats = []
        for i in range(len(T.under.fields)):
            f = s.acc(run, T, i)
            if App(f, x) in body: pats.append(":pattern ((valid_%s x) (%s x))" % (V, f))
        run.decls.append("(assert (forall ((x %s)) (! (=> (valid_%s x) %s) %s)))" % (V, V, body, " ".join(pats)))
    def valid_body(s, run, T, x):
        if T.name == "ValueNumber":
            ix = {f[0]: i for i, f in enumerate(T.under.fields)}
            return And(Not(Eq(App(s.acc(run, T, ix["Source"]), x), '""')), Not(Eq(App(s.acc(run, T, ix["Value"]), x), "nil")))
        if T.name == "HeredocDelimiter":
            ix = {f[0]: i for i, f in enumerate(T.under.fields)}
            return Not(Eq(App(s.acc(run, T, ix["Delimiter"]), x), '""'))
        pats = s.types.patterns(T)
        if pats is None: return "true"
        common = []; lits = []
        for i, (n, fty, emb, tag) in enumerate(T.under.fields):
            if s.types.is_astnode(fty): continue
            u = fty.under; t = App(s.acc(run, T, i), x); yes = no = "true"
            if u.k == "ptr":
                yes = Not(Eq(t, "nil")); no = Eq(t, "nil")
                if s.types.is_tree(u.elem):
                    U = s.vsort(run, u.elem); run.fun("valid_" + U, [U], "Bool")
                    common.append(Imp(Not(Eq(t, "nil")), App("valid_" + U, App(s.ctf(run, u.elem), t))))
            elif u.k == "slice":
                es = run.sort(u.elem); s.sldecl(run, es)
                yes = "(> (sl_len %s) 0)" % t; no = App("sl_nil", t); common.append(Imp(App("sl_nil", t), Eq(App("sl_len", t), "0")))
                common.append("(>= (sl_len %s) 0)" % t)
                if u.elem.under.k == "ptr" and s.types.is_tree(u.elem.under.elem):
                    U = s.vsort(run, u.elem.under.elem); run.fun("valid_" + U, [U], "Bool"); e = "(select (slc_%s %s) k)" % (sane(es), t)
                    common.append("(forall ((k Int)) (! (=> (and (<= 0 k) (< k (sl_len %s))) (and (not (= %s nil)) (valid_%s (%s %s)))) :pattern (%s)))" % (t, e, U, s.ctf(run, u.elem.under.elem), e, e))
            elif u.k == "struct" and s.types.is_tree(fty):
                U = s.vsort(run, fty); run.fun("valid_" + U, [U], "Bool"); yes = App("valid_" + U, t)
            elif run.sort(fty) == "String": yes = Not(Eq(t, '""')); no = Eq(t, '""')
            elif run.sort(fty) == "Bool": yes = t; no = Not(t)
            lits.append((n, yes, no))
        dis = []
        always = [n for n, y, o in lits if all(n in p for p in pats)]; never = [n for n, y, o in lits if not any(n in p for p in pats)]
        for n, y, o in lits:
            if n in always: common.append(y)
            elif n in never: common.append(o)
        for p in sorted(pats, key=sorted):
            dis.append(And(*[y if n in p else o for n, y, o in lits if n not in always and n not in never]))
        # a string that a number token and the like fill in is there; see the assumptions
        return And(*(common + ([Or(*dis)] if dis else [])))
    # ---- interface method calls
    def invoke(s, run, fr, ins, st, recv, m, args, cont):
        import etxmore
        name = m if isinstance(m, str) else m["n"]
        if isinstance(recv, IfV):
            full = (s.mod.methodset(recv.dyn.key) or {}).get(name)
            if full is None: raise Unsupported("method %s of %s" % (name, recv.dyn.key))
            return run.call_fn(fr, ins, st, {"n": full, "full": full}, [recv.v] + args, cont)
        ty = recv.ty
        if ty is not None and ty.k == "tparam":
            if name == "Clone" and run.sp.prop in KEEP:
                so = run.sort(ty); nn = run.fresh("Int", "now"); st.pc.append("(>= %s %s)" % (nn, st.now)); st.now = nn
                y = run.fresh(so, "clone"); run.assumes.add("the Clone method of an element type satisfies the contract of the Clone methods (each of which is verified)")
                if run.sp.prop == "E01": run.fun("eqp_" + so, [so, so], "Bool"); st.pc.append(App("eqp_" + so, recv.t, y))
                if run.sp.prop == "E02": run.fun("frp_" + so, [so], "Bool"); st.pc.append(App("frp_" + so, y))
                return cont(st, TV(ty, y))
            raise Unsupported("method %s of a type parameter" % name)
        if ty is not None and ty.under.k != "iface":
            full = (s.mod.methodset(ty.key) or {}).get(name)
            if full is None: raise Unsupported("method %s of %s" % (name, ty.key))
            return run.call_fn(fr, ins, st, {"n": full, "full": full}, [recv] + args, cont)
        return etxmore.invoke(s, run, fr, ins, st, recv, name, args, cont)
    def convert(s, run, fr, st, v, ty, ins):
        import etxmore
        if isinstance(v, StrV) and run.sort(ty) == "String" : return StrV(v.p, ty)
        return etxmore.convert(s, run, fr, st, v, ty, ins)
    def copy_slice(s, run, fr, ins, st, a, b):
        ty = run.mod.ty(ins["t"], fr.env)
        if not isinstance(a, SlV) or not isinstance(b, SlV): raise Unsupported("copy")
        n = run.define(st, "Int", Ite(Le(a.ln, b.ln), a.ln, b.ln), "n")
        if a.bid is None or b.bid is None: return TV(ty, "0")
        A = st.backs[a.bid]; B = st.backs[b.bid]
        if not A.fresh or A.shared or A.pub:
            run.ob(st, "copies only into a slice this function owns", "false", fr, ins, (), "frame")
            if run.sp.prop != "E07": raise Unsupported("copy into a slice that others hold, at %s" % ins.get("pos", ""))
        elif run.sp.prop == "E07": run.oblige(st, "copies only into a slice this function owns", "true", (), "frame", pos=ins.get("pos", ""))
        c = run.fresh("(Array Int %s)" % A.esort, "cp"); run.n += 1; q = "i?%d" % run.n
        st.pc.append("(forall ((%s Int)) (! (= (select %s %s) (ite (and (<= %s %s) (< %s (+ %s %s))) (select %s (+ %s (- %s %s))) (select %s %s))) :pattern ((select %s %s))))" % (q, c, q, a.off, q, q, a.off, n, B.content, b.off, q, a.off, A.content, q, c, q))
        nb = A.copy(); nb.content = c; nb.conc = None; st.backs[a.bid] = nb
        return TV(ty, n)
    def global_load(s, run, st, p):
        import etxmore
        return etxmore.global_load(s, run, st, p)
    # ---- E06 layouts
    def layout(s, run, T, v):
        import etx_layout
        f = etx_layout.LAYOUT.get(T.name)
        return None if f is None else f(Lay(s, run), Node(s, run, T, v))
    def join_facts(s, run, st):
        """The text of a join depends only on the items it joins."""
        out = ["(= (joinA %s 1 %s) (select %s 0))" % (a, sep, a) for a, n, sep in getattr(run, "specjoins", [])]
        out += ["(= (joinA %s 0 %s) \"\")" % (a, sep) for a, n, sep in getattr(run, "specjoins", [])]
        E = '""'
        def J(a, n, sep): return "(joinA %s %s %s)" % (a, n, sep)
        def differ(n, x, y):        # at a Skolem index, the items are not as said
            k = run.fresh("Int", "k")
            return "(and (<= 0 %s) (< %s %s) (not (= %s %s)))" % (k, k, n, x(k), y(k))
        def at(a, m=0): return lambda k: "(select %s %s)" % (a, Add(num(m), k) if m else k)
        def cat(*xs): return "(str.++ %s)" % " ".join(xs)
        for (c, n, sep) in sorted(set(run.joins)):
            for (a, n2, sep2) in sorted(set(run.specjoins if hasattr(run, "specjoins") else [])):
                if sep == sep2:
                    out.append(Or(differ(n, at(c), at(a)), Eq(J(c, n, sep), J(a, n, sep)))); run.usedlemmas.add("join_ext")
                    if sep == E:
                        for m in (0, 1, 2):
                            for j in (0, 1, 2):
                                if m + j == 0 or n == n2: continue
                                whole = cat(*["(select %s %d)" % (c, i) for i in range(m)] + [J(a, n2, E)] + ["(select %s %s)" % (c, Add(num(m + i), n2)) for i in range(j)])
                                out.append(Imp(And(Le("0", n2), Eq(n, Add(n2, num(m + j)))), Or(differ(n2, at(c, m), at(a)), Eq(J(c, n, E), whole))))
                        if n != n2: run.usedlemmas.add("join_mid")
                elif E in (sep, sep2):
                    (x, sx, y) = (c, sep, a) if sep2 == E else (a, sep2, c)      # y's items are x's with the separator
                    tr = cat(J(x, n2, sx), sx); ld = cat(sx, J(x, n2, sx))
                    out.append(Imp(And(Le("1", n2), Eq(n, n2)), Or(differ(n2, lambda k: cat(at(x)(k), sx), at(y)), Eq(J(y, n2, E), tr))))
                    out.append(Imp(And(Le("1", n2), Eq(n, n2)), Or(differ(n2, lambda k: cat(sx, at(x)(k)), at(y)), Eq(J(y, n2, E), ld))))
                    run.usedlemmas |= {"join_trail", "join_lead"}
        return out
    # ---- invariants
    def sources(s, run, fr, st, rec):
        """Slices of the tree that a loop may run over: (name, getter)."""
        out = []; seen = set()
        def add(nm, v):
            if isinstance(v, SlV) and v.sl is not None and v.sl not in seen:
                seen.add(v.sl); out.append((nm, v))
        ent = rec["entry"]
        for fid in sorted(ent.regs):
            for n, v in sorted(ent.regs[fid].items()):
                if n.startswith("$"): continue
                add("%s" % n, v)
        for a in getattr(run, "entryargs", []):
            ty = getattr(a, "ty", None)
            if not isinstance(a, TV) or ty is None: continue
            T = ty.under.elem if ty.under.k == "ptr" else ty
            if T.under.k != "struct" or T.k != "named": continue
            v = TV(T, s.view(run, st, a, T))
            for i, (n, f, e, t) in enumerate(T.under.fields):
                if f.under.k == "slice":
                    n0 = len(ent.pc); add("." + n, run.unterm(ent, f, App(s.acc(run, T, i), v.t)))
                    st.pc += [x for x in ent.pc[n0:] if x not in st.pc]
                    for b, B in ent.backs.items(): st.backs.setdefault(b, B)
        return out
    def progress(s, run, fr, rec, st):
        """Counters of the loop: (name, term for the number of finished rounds)."""
        out = []
        for r, v in rec["pv"].items():
            if isinstance(v, TV) and v.ty is not None and run.sort(v.ty) == "Int" and isnum(v.t) and val(v.t) in (0, -1):
                cur = st.regs[rec["fid"]].get(r)
                if isinstance(cur, TV): out.append((r, Add(cur.t, num(-val(v.t)))))
        return out
    def targets(s, run, fr, rec, st):
        """Slices and texts that the loop builds: (name, entry value, getter)."""
        out = []; ent = rec["entry"]
        for r, v in rec["pv"].items():
            if isinstance(v, (SlV, StrV)): out.append((r, v, lambda st2, r=r, f=rec["fid"]: st2.regs[f].get(r)))
        def get(st2, oid, path):
            v = st2.objs.get(oid)
            for i in path:
                if isinstance(v, TV): v = run.field(st2, v, i)
                else: v = v.f[i]
            return v
        for oid, path in sorted(rec["mods"]["objs"]):
            v0 = get(ent, oid, path) if oid in ent.objs else None
            if isinstance(v0, (SlV, StrV)): out.append(("o%s" % ".".join(map(str, (sorted(ent.objs).index(oid),) + path)), v0, lambda st2, o=oid, p=path: get(st2, o, p)))
        for bid in sorted(rec["mods"]["backs"]):
            for n, v in sorted(ent.regs[rec["fid"]].items()):
                if isinstance(v, SlV) and v.bid == bid and n not in rec["pv"]: out.append((n, v, lambda st2, v=v: v))
        return out
    def auto_cands(s, run, fr, st, rec):
        out = []; key = rec["key"]; M = s; prop = run.sp.prop
        ent = rec["entry"]
        srcs = s.sources(run, fr, st, rec)
        def cont_at(st2, v, i):
            b = st2.backs.get(v.bid) if v.bid is not None else None
            if b is None or b.content is None: return None
            return Sel(b.content, Add(v.off, i))
        def none(n): return "true" if n == "0" else None       # nothing to say about no items
        for cn, _ in s.progress(run, fr, rec, st):
            def cnt(st2, cn=cn):
                return dict(s.progress(run, fr, rec, st2)).get(cn)
            for sn, sv in srcs:
                out.append(("%s|bound|%s|%s" % (key, cn, sn), "%s within %s" % (cn, sn), ("py", lambda st_run, st2, cnt=cnt, sv=sv: Le(cnt(st2), sv.ln))))
            for tn, t0, get in s.targets(run, fr, rec, st):
                if isinstance(t0, SlV):
                    def ln(st_run, st2, get=get, t0=t0, cnt=cnt):
                        v = get(st2)
                        return Eq(v.ln, Add(t0.ln, cnt(st2))) if isinstance(v, SlV) else None
                    out.append(("%s|len|%s|%s" % (key, tn, cn), "%s grows by one each round" % tn, ("py", ln)))
                    b0 = ent.backs.get(t0.bid) if t0.bid is not None else None
                    if t0.ln != "0" and b0 is not None and b0.content is not None:
                        def prefix(st_run, st2, get=get, t0=t0, c0=b0.content):
                            v = get(st2); run.n += 1; q = "k?%d" % run.n; y = cont_at(st2, v, q)
                            if y is None: return None
                            return "(forall ((%s Int)) (! (=> (and (<= 0 %s) (< %s %s)) (= %s %s)) :pattern (%s)))" % (q, q, q, t0.ln, y, Sel(c0, Add(t0.off, q)), y)
                        out.append(("%s|prefix|%s" % (key, tn), "%s keeps what it had" % tn, ("py", prefix)))
                    if t0.ln == "0":
                        out.append(("%s|nil|%s|%s" % (key, tn, cn), "%s stays as it was while empty" % tn, ("py", lambda sr, st2, get=get, t0=t0, cnt=cnt: Imp(Eq(cnt(st2), "0"), Eq(get(st2).nilt, t0.nilt)) if isinstance(get(st2), SlV) else None)))
                    out.append(("%s|samenil|%s" % (key, tn), "%s is not nil" % tn, ("py", lambda sr, st2, get=get: Not(get(st2).nilt) if isinstance(get(st2), SlV) else None)))
                    ety = t0.ty.under.elem
                    if prop == "E02":
                        def fr_(st_run, st2, get=get, t0=t0, ety=ety):
                            v = get(st2); run.n += 1; q = "k?%d" % run.n; y = cont_at(st2, v, q)
                            if y is None: return none(v.ln)
                            return "(forall ((%s Int)) (! (=> (and (<= %s %s) (< %s %s)) %s) :pattern (%s)))" % (q, t0.ln if t0.ln != v.ln else "0", q, q, v.ln, s.freshp(run, ety, y, 0), y)
                        out.append(("%s|new|%s" % (key, tn), "items of %s are new" % tn, ("py", fr_)))
                        def fr2(st_run, st2, get=get, cnt=cnt, ety=ety):
                            v = get(st2); run.n += 1; q = "k?%d" % run.n; y = cont_at(st2, v, q)
                            if y is None: return none(cnt(st2))
                            return "(forall ((%s Int)) (! (=> (and (<= 0 %s) (< %s %s)) %s) :pattern (%s)))" % (q, q, q, cnt(st2), s.freshp(run, ety, y, 0), y)
                        out.append(("%s|newk|%s|%s" % (key, tn, cn), "items of %s so far are new" % tn, ("py", fr2)))
                    if prop in ("E01", "E03", "E06"):
                        for sn, sv in srcs:
                            for base in ("end", "0") if t0.ln != "0" else ("end",):
                                def el(st_run, st2, get=get, t0=t0, sv=sv, cnt=cnt, ety=ety, base=base):
                                    v = get(st2); run.n += 1; q = "k?%d" % run.n
                                    y = cont_at(st2, v, Add(t0.ln, q) if base == "end" else q); x = cont_at(st2, sv, q)
                                    if y is None or x is None: return none(cnt(st2))
                                    if prop == "E01":
                                        if run.sort(ety) != run.sort(sv.ty.under.elem): return None
                                        g = s.relp(run, ety, x, y, 0)
                                    elif prop == "E03":
                                        if run.sort(ety) != "Iface" or sv.ty.under.elem.under.k != "ptr": return None
                                        g = Eq(y, s.box(run, sv.ty.under.elem, x))
                                    else: return None
                                    return "(forall ((%s Int)) (! (=> (and (<= 0 %s) (< %s %s)) %s) :pattern (%s)))" % (q, q, q, cnt(st2), g, y if "(+" not in y else x)
                                if prop != "E06": out.append(("%s|elt|%s|%s|%s|%s" % (key, tn, sn, cn, base), "items of %s follow %s" % (tn, sn), ("py", el)))
                    if prop == "E06" and run.sort(ety) == "String":
                        for an, a in s.spec_arrays(run):
                            def ar(st_run, st2, get=get, t0=t0, a=a, cnt=cnt, base="end"):
                                v = get(st2); run.n += 1; q = "k?%d" % run.n
                                y = cont_at(st2, v, Add(t0.ln, q) if t0.ln != v.ln else q)
                                if y is None: return none(cnt(st2))
                                return "(forall ((%s Int)) (! (=> (and (<= 0 %s) (< %s %s)) (= %s (select %s %s))) :pattern (%s)))" % (q, q, q, cnt(st2), y, a, q, y)
                            out.append(("%s|text|%s|%s|%s" % (key, tn, an, cn), "items of %s are the texts of %s" % (tn, an), ("py", ar)))
                elif isinstance(t0, StrV) and prop == "E06":
                    for an, a, sep in s.spec_joins(run):
                        def tx(st_run, st2, get=get, t0=t0, a=a, sep=sep, cnt=cnt):
                            v = get(st2)
                            if not isinstance(v, StrV): return None
                            return Eq(v.term(), strcat(t0, StrV([("t", "(joinA %s %s %s)" % (a, cnt(st2), sep))])).term())
                        out.append(("%s|join|%s|%s|%s|%s" % (key, tn, an, sane(sep), cn), "%s is the join of %s" % (tn, an), ("py", tx)))
                        if sep == '""': continue
                        for lead in (True, False):      # a separator before, or after, every item
                            def tl(st_run, st2, get=get, t0=t0, a=a, sep=sep, cnt=cnt, lead=lead):
                                v = get(st2)
                                if not isinstance(v, StrV): return None
                                j = "(joinA %s %s %s)" % (a, cnt(st2), sep)
                                return Eq(v.term(), Ite(Eq(cnt(st2), "0"), t0.term(), strcat(t0, StrV([("t", "(str.++ %s %s)" % ((sep, j) if lead else (j, sep)))])).term()))
                            out.append(("%s|%sjoin|%s|%s|%s|%s" % (key, "lead" if lead else "trail", tn, an, sane(sep), cn), "%s is the join of %s, with a separator more" % (tn, an), ("py", tl)))
            if prop in ("E05", "E06"):
                for r, v in rec["pv"].items():
                    if isinstance(v, TV) and v.ty is not None and run.sort(v.ty) == "Int" and v.t == "0" and r != cn:
                        for sn, sv in srcs:
                            for lf, lab in s.label_len(run, sv):
                                if prop == "E05":
                                    def mb(st_run, st2, r=r, sv=sv, lf=lf, cnt=cnt):
                                        run.n += 1; q = "k?%d" % run.n; x = cont_at(st2, sv, q)
                                        if x is None: return None
                                        return "(forall ((%s Int)) (! (=> (and (<= 0 %s) (< %s %s)) (<= %s %s)) :pattern (%s)))" % (q, q, q, cnt(st2), lf(x), st2.regs[rec["fid"]][r].t, x)
                                    out.append(("%s|max|%s|%s|%s|%s" % (key, r, sn, lab, cn), "%s bounds the labels" % r, ("py", mb)))
                                else:
                                    def mq(st_run, st2, r=r, sv=sv, lab=lab, cnt=cnt):
                                        return Eq(st2.regs[rec["fid"]][r].t, s.mxterm(run, sv.ty.under.elem, lab, sv.sl, cnt(st2)))
                                    out.append(("%s|max|%s|%s|%s|%s" % (key, r, sn, lab, cn), "%s is the longest label" % r, ("py", mq)))
        import etxmore
        out += etxmore.cands(s, run, fr, st, rec)
        return out
    def label_len(s, run, sv):
        e = sv.ty.under.elem
        if e.under.k != "ptr" or e.under.elem.under.k != "struct" or not s.types.is_tree(e.under.elem): return []
        T = e.under.elem; out = []
        for i, (n, f, em, t) in enumerate(T.under.fields):
            if run.sort(f) == "String" and n == "Label":
                a = s.acc(run, T, i); ct = s.ctf(run, T)
                out.append((lambda x, a=a, ct=ct: "(str.len (%s (%s x%s)))".replace("x%s", "%s") % (a, ct, x), n))
        return out
    def mxterm(s, run, ety, field, sl, n):
        """The length of the longest of the first n labels."""
        T = ety.under.elem; V = s.vsort(run, T); f = run.fun("mx_%s_%s" % (V[2:], field), ["Sl", "Int"], "Int")
        es = run.sort(ety); s.sldecl(run, es)
        i = [x[0] for x in T.under.fields].index(field)
        L = "(str.len (%s (%s (select (slc_%s s) k))))" % (s.acc(run, T, i), s.ctf(run, T), sane(es))
        run.axiom("ax_" + f, "(and (forall ((s Sl)) (! (= (%s s 0) 0) :pattern ((%s s 0)))))" % (f, f))
        run.mxs = getattr(run, "mxs", {}); run.mxs[f] = L
        return App(f, sl, n)
    def spec_arrays(s, run):
        s.ensure_layout(run)
        return [(n, a) for n, a in run.specarrays]
    def spec_joins(s, run):
        s.ensure_layout(run)
        names = {a: n for n, a in run.specarrays}
        out = []
        for a, n, sep in run.specjoins:
            if (names.get(a, a), a, sep) not in out: out.append((names.get(a, a), a, sep))
        return out
    def ensure_layout(s, run):
        """The arrays and joins that the layout of the function's type speaks of."""
        if run.layouts.get("done"): return
        run.layouts["done"] = True
        run.specarrays = []; run.specjoins = []
        if run.c is None or run.c.kind != "format" or run.sp.prop != "E06": return
        st = run.entry if False else X.State(); st.now = run.now0
        s.layout(run, run.c.T, s.view(run, st, run.entryargs[0], run.c.T))
    def loop_facts(s, run, fr, st, rec):
        """Unfolds the recursive notions of the contracts once, at the loop head."""
        if run.sp.prop != "E06": 
            import etxmore
            return etxmore.loop_facts(s, run, fr, st, rec)
        s.ensure_layout(run); out = []
        for cn, n in s.progress(run, fr, rec, st):
            for an, a, sep in s.spec_joins(run):
                out.append("(= (joinA %s 0 %s) \"\")" % (a, sep))
                out.append("(=> (>= %s 0) (= (joinA %s %s %s) (ite (= %s 0) (select %s 0) (str.++ (joinA %s %s %s) %s (select %s %s)))))" % (n, a, Add(n, "1"), sep, n, a, a, n, sep, sep, a, n) if sep != '""' else
                           "(=> (>= %s 0) (= (joinA %s %s %s) (str.++ (joinA %s %s %s) (select %s %s))))" % (n, a, Add(n, "1"), sep, a, n, sep, a, n))
            for f, L in getattr(run, "mxs", {}).items():
                for sn, sv in s.sources(run, fr, st, rec):
                    e = sv.ty.under.elem
                    if e.under.k == "ptr" and e.under.elem.k == "named" and f.startswith("mx_%s_" % e.under.elem.name):
                        l = L.replace(" s) k", " %s) %s" % (sv.sl, n))
                        out += ["(= (%s %s 0) 0)" % (f, sv.sl), "(=> (>= %s 0) (= (%s %s %s) (ite (> %s (%s %s %s)) %s (%s %s %s))))" % (n, f, sv.sl, Add(n, "1"), l, f, sv.sl, n, l, f, sv.sl, n)]
        return out
    def init_facts(s, run, fr, st, rec):
        if run.sp.prop != "E06":
            import etxmore
            return etxmore.init_facts(s, run, fr, st, rec)
        s.ensure_layout(run)
        return ["(= (joinA %s 0 %s) \"\")" % (a, sep) for an, a, sep in s.spec_joins(run)]

class Node:
    """A struct value in a layout: n.Field gives the field."""
    def __init__(s, M, run, T, v): s.M = M; s.run = run; s.T = T; s.v = v
    def __getattr__(s, name):
        i = [f[0] for f in s.T.under.fields].index(name); f = s.T.under.fields[i][1]
        return Fld(s.M, s.run, f, App(s.M.acc(s.run, s.T, i), s.v))
class Fld:
    def __init__(s, M, run, ty, t): s.M = M; s.run = run; s.ty = ty; s.t = t
    @property
    def present(s):
        u = s.ty.under
        if u.k == "ptr": return Not(Eq(s.t, "nil"))
        if u.k == "slice": return Not(Eq(App("sl_len", s.t), "0"))
        if s.run.sort(s.ty) == "String": return Not(Eq(s.t, '""'))
        return s.t
    @property
    def node(s):
        T = s.ty.under.elem if s.ty.under.k == "ptr" else s.ty
        return Node(s.M, s.run, T, App(s.M.ctf(s.run, T), s.t) if s.ty.under.k == "ptr" else s.t)
    @property
    def fmt(s):
        n = s.node; V = s.M.vsort(s.run, n.T); f = s.run.fun("fmt_" + V, [V], "String"); return App(f, n.v)
    @property
    def given(s):
        u = s.ty.under
        return Not(App("sl_nil", s.t)) if u.k == "slice" else s.present
    @property
    def isstring(s): return s.run.sort(s.ty) == "String"
    @property
    def len(s): return App("sl_len", s.t)

class Lay:
    """The vocabulary of contracts/etx_layout.py; every method gives an SMT term."""
    def __init__(s, M, run):
        s.M = M; s.run = run
        if not hasattr(run, "specarrays") or not run.layouts.get("done"): run.specarrays = []; run.specjoins = []; run.layouts["done"] = True
    def cat(s, *xs):
        o = [smtstr(x[1]) if isinstance(x, tuple) else x for x in xs]
        o = [x for x in o if x != '""']
        return '""' if not o else o[0] if len(o) == 1 else "(str.++ %s)" % " ".join(o)
    def lit(s, x): return smtstr(x)
    def ite(s, c, a, b): return Ite(c, a, b)
    def case(s, *cs):
        """(cond, text), ..., default text"""
        r = cs[-1]
        for c, t in reversed(cs[:-1]): r = Ite(c, t, r)
        return r
    def opt(s, c, t): return Ite(c, t, '""')
    def ind(s, t):
        f = s.run.fun("ind", ["String", "String"], "String"); return App(f, t, smtstr("\t"))
    def trim(s, t, suf):
        f = s.run.fun("trimSuffix", ["String", "String"], "String"); return App(f, t, smtstr(suf))
    def rep(s, t, n):
        f = s.run.fun("repeat", ["String", "Int"], "String"); return App(f, smtstr(t), n)
    def longest(s, fld, label): return s.M.mxterm(s.run, fld.ty.under.elem, label, fld.t, fld.len)
    def minus(s, a, b): return "(- %s %s)" % (a, b)
    def either(s, *cs): return Or(*cs)
    def many(s, fld): return "(> %s 1)" % fld.len
    def length(s, t): return "(str.len %s)" % t
    def array(s, fld, item, key, extra=()):
        """The texts of the items: an array whose k-th element is item(k-th item)."""
        run = s.run; e = fld.ty.under.elem; es = run.sort(e); s.M.sldecl(run, es)
        f = run.fun("A_" + key, ["Sl"] + ["Int"] * len(extra), "(Array Int String)")
        exn = ["e%d" % i for i in range(len(extra))]
        x = "(select (slc_%s s) k)" % sane(es)
        it = item(Fld(s.M, run, e, x), *exn)
        app = "(%s s%s)" % (f, "".join(" " + n for n in exn))
        run.axiom("ax_" + f, "(forall ((s Sl)%s (k Int)) (! (= (select %s k) %s) :pattern ((select %s k))))" % ("".join(" (%s Int)" % n for n in exn), app, it, app))
        t = App(f, fld.t, *extra)
        if (key, t) not in run.specarrays: run.specarrays.append((key, t))
        return t
    def join(s, fld, sep, item, key, extra=()):
        run = s.run; a = s.array(fld, item, key, extra)
        run.fun("joinA", ["(Array Int String)", "Int", "String"], "String")
        n = fld.len; sp = smtstr(sep)
        if (a, n, sp) not in run.specjoins: run.specjoins.append((a, n, sp))
        return "(joinA %s %s %s)" % (a, n, sp)

# ---------------------------------------------------------------- external functions
def ret(run, fr, ins): return run.mod.ty(ins["t"], fr.env) if ins.get("t") else None
NOERR = "nilI"
def errty(run): return run.mod.ty("error") if "error" in run.mod.types else None
def builder_append(run, st, p, s):
    cur = run.loadloc(st, p)
    if p.oid in st.pub: raise Unsupported("write to a shared builder")
    run.storeloc(st, p, strcat(cur, s))
def isbuilder(v): return isinstance(v, LocP)
def m_write(run, fr, ins, st, args, cont):
    p, x = args
    if not isinstance(p, LocP) or not isinstance(run.loadloc(st, p), StrV): raise Unsupported("a builder this function did not make")
    run.model.local_store(run, fr, st, p, ins)
    if not isinstance(x, StrV): x = StrV([("t", run.term(st, x))]) if isinstance(x, TV) and run.sort(x.ty) == "String" else None
    if x is None: raise Unsupported("write of other than a string")
    builder_append(run, st, p, StrV(x.p, run.loadloc(st, p).ty))
    n = run.fresh("Int", "n"); cont(st, TupV([TV(None, n), TV(None, NOERR)]))
def m_writebyte(run, fr, ins, st, args, cont):
    p, x = args
    if not isinstance(p, LocP): raise Unsupported("a builder this function did not make")
    t = run.term(st, x)
    if isnum(t) and 0 < val(t) < 128: builder_append(run, st, p, StrV([("lit", chr(val(t)))], run.loadloc(st, p).ty))
    else: builder_append(run, st, p, StrV([("t", "(str.from_code %s)" % t)], run.loadloc(st, p).ty))
    rt = ret(run, fr, ins)
    cont(st, TupV([TV(None, run.fresh("Int", "n")), TV(None, NOERR)]) if rt is not None and rt.k == "tuple" else TV(rt, NOERR))
def m_bstring(run, fr, ins, st, args, cont):
    p = args[0]
    if not isinstance(p, LocP): raise Unsupported("a builder this function did not make")
    v = run.loadloc(st, p); cont(st, StrV(v.p, ret(run, fr, ins)))
def m_blen(run, fr, ins, st, args, cont):
    v = run.loadloc(st, args[0]); cont(st, TV(ret(run, fr, ins), "(str.len %s)" % v.term()))
def m_nop(run, fr, ins, st, args, cont): cont(st, None)
def m_breset(run, fr, ins, st, args, cont):
    run.storeloc(st, args[0], StrV([], run.loadloc(st, args[0]).ty)); cont(st, None)

def varargs(run, st, v):
    if not isinstance(v, SlV): raise Unsupported("variable arguments")
    if v.bid is None: return []
    b = st.backs[v.bid]
    if b.conc is None or not isnum(v.ln) or not isnum(v.off): raise Unsupported("variable arguments of unknown number")
    return b.conc[val(v.off):val(v.off) + val(v.ln)]
def show(run, st, v, verb):
    """The text fmt gives a value, or an unknown text."""
    if isinstance(v, IfV):
        x = v.v; dyn = v.dyn
        if isinstance(x, StrV) or (isinstance(x, TV) and run.sort(dyn) == "String" ):
            hasm = bool((run.mod.methodset(dyn.key) or {}).keys() & {"String", "Error", "Format", "GoString"}) if dyn.k == "named" else False
            if verb in "sv" and not hasm: return x.p if isinstance(x, StrV) else [("t", x.t)]
            if verb == "q": return [("t", App(run.fun("quote", ["String"], "String"), run.term(st, x)))]
        if isinstance(x, TV) and x.ty is not None and run.sort(dyn) == "Int" and verb in "dv" and dyn.k == "basic":
            return [("t", App(run.fun("itoa", ["Int"], "String"), x.t))]
        if isinstance(x, TV) and x.ty is not None and run.sort(dyn) == "Bool" and verb in "tv" and dyn.k == "basic":
            return [("t", Ite(x.t, '"true"', '"false"'))]
    return [("t", run.fresh("String", "shown"))]
def sprintf(run, st, f, args):
    if not isinstance(f, StrV) or f.lit() is None: raise Unsupported("format that is not a constant")
    f = f.lit(); out = []; i = 0; args = list(args); used = 0
    while i < len(f):
        c = f[i]
        if c != "%": out.append(("lit", c)); i += 1; continue
        if i + 1 >= len(f): out.append(("lit", "%!(NOVERB)")); break
        v = f[i + 1]
        if v == "%": out.append(("lit", "%")); i += 2; continue
        if v in "svqdtwx" :
            if used >= len(args): out.append(("lit", "%!" + v + "(MISSING)")); i += 2; continue
            a = args[used]; used += 1; out += show(run, st, a, v); i += 2; continue
        if f.startswith("-*s", i + 1) or f.startswith("*s", i + 1):
            left = f.startswith("-*s", i + 1)
            w, a = args[used], args[used + 1]; used += 2
            if not (isinstance(w, IfV) and isinstance(w.v, TV)): raise Unsupported("format width")
            t = StrV(show(run, st, a, "s")).term()
            pad = App(run.fun("repeat", ["String", "Int"], "String"), '" "', Ite("(> %s (str.len %s))" % (w.v.t, t), "(- %s (str.len %s))" % (w.v.t, t), "0"))
            run.assumes.add("the texts padded by a format width are ASCII")
            out += [("t", t), ("t", pad)] if left else [("t", pad), ("t", t)]
            i += 4 if left else 3; continue
        raise Unsupported("format verb %s" % f[i:i + 3])
    if used < len(args): out.append(("t", run.fresh("String", "extra")))
    return StrV(out)
def m_sprintf(run, fr, ins, st, args, cont):
    v = sprintf(run, st, args[0], varargs(run, st, args[1])); cont(st, StrV(v.p, ret(run, fr, ins)))
def writer(run, st, w):
    if isinstance(w, IfV) and isinstance(w.v, LocP) and isinstance(run.loadloc(st, w.v), StrV): return w.v
    raise Unsupported("writer this function did not make")
def m_fprintf(run, fr, ins, st, args, cont):
    p = writer(run, st, args[0]); v = sprintf(run, st, args[1], varargs(run, st, args[2]))
    run.model.local_store(run, fr, st, p, ins)
    builder_append(run, st, p, StrV(v.p, run.loadloc(st, p).ty))
    cont(st, TupV([TV(None, run.fresh("Int", "n")), TV(None, NOERR)]))
def m_fprint(run, fr, ins, st, args, cont):
    p = writer(run, st, args[0]); xs = varargs(run, st, args[1]); out = []
    for x in xs:
        if not (isinstance(x, IfV) and isinstance(x.v, StrV)): raise Unsupported("Fprint of other than strings")
        out += x.v.p
    builder_append(run, st, p, StrV(out, run.loadloc(st, p).ty)); cont(st, TupV([TV(None, run.fresh("Int", "n")), TV(None, NOERR)]))
def m_sprint(run, fr, ins, st, args, cont):
    out = []
    for x in varargs(run, st, args[0]):
        if not (isinstance(x, IfV) and isinstance(x.v, StrV)): raise Unsupported("Sprint of other than strings")
        out += x.v.p
    cont(st, StrV(out, ret(run, fr, ins)))
def m_iowritestring(run, fr, ins, st, args, cont):
    p = writer(run, st, args[0]); builder_append(run, st, p, StrV(args[1].p, run.loadloc(st, p).ty)); cont(st, TupV([TV(None, run.fresh("Int", "n")), TV(None, NOERR)]))
def m_errorf(run, fr, ins, st, args, cont):
    xs = varargs(run, st, args[1]); f = args[0].lit() if isinstance(args[0], StrV) else None
    if f is None: raise Unsupported("format that is not a constant")
    verbs = re.findall(r"%([a-z%])", f); verbs = [v for v in verbs if v != "%"]
    e = run.fresh("Iface", "err"); st.pc.append("(not (= %s nilI))" % e)
    ws = [x for v, x in zip(verbs, xs) if v == "w"]
    if len(ws) == 1:
        run.fun("unwrap", ["Iface"], "Iface"); st.pc.append("(= (unwrap %s) %s)" % (e, run.term(st, ws[0])))
    elif not ws:
        run.fun("unwrap", ["Iface"], "Iface"); st.pc.append("(= (unwrap %s) nilI)" % e)
    cont(st, TV(ret(run, fr, ins), e))
def m_join(run, fr, ins, st, args, cont):
    x, sep = args; rt = ret(run, fr, ins)
    if x.bid is None: return cont(st, StrV([], rt))
    b = st.backs[x.bid]
    if b.conc is not None and isnum(x.ln) and isnum(x.off):
        items = b.conc[val(x.off):val(x.off) + val(x.ln)]; out = []
        for i, it in enumerate(items):
            if i: out += sep.p
            out += it.p if isinstance(it, StrV) else [("t", run.term(st, it))]
        return cont(st, StrV(out, rt))
    c = b.content
    if x.off != "0":
        c = run.fresh("(Array Int String)", "sh"); st.pc.append("(forall ((i Int)) (! (= (select %s i) (select %s (+ %s i))) :pattern ((select %s i))))" % (c, b.content, x.off, c))
    run.fun("joinA", ["(Array Int String)", "Int", "String"], "String")
    t = sep.term()
    st.pc.append("(= (joinA %s 0 %s) \"\")" % (c, t)); st.pc.append("(= (joinA %s 1 %s) (select %s 0))" % (c, t, c))
    run.joins.append((c, x.ln, t))
    cont(st, StrV([("t", "(joinA %s %s %s)" % (c, x.ln, t))], rt))
def m_repeat(run, fr, ins, st, args, cont):
    n = run.term(st, args[1])
    if run.sp.prop != "E06": run.ob(st, "strings.Repeat count is not negative", Le("0", n), fr, ins, ())      # E05 decides this
    f = run.fun("repeat", ["String", "Int"], "String"); t = App(f, run.term(st, args[0]), n)
    st.pc.append("(=> (<= %s 0) (= %s \"\"))" % (n, t))
    cont(st, StrV([("t", t)], ret(run, fr, ins)))
def pure(name):
    def m(run, fr, ins, st, args, cont):
        rt = ret(run, fr, ins); so = run.sort(rt)
        f = run.fun(name, [run.sort(a.ty) if not isinstance(a, StrV) else "String" for a in args], so)
        t = App(f, *[run.term(st, a) for a in args])
        cont(st, StrV([("t", t)], rt) if so == "String" else TV(rt, t))
    return m
def m_hasprefix(run, fr, ins, st, args, cont): cont(st, TV(ret(run, fr, ins), "(str.prefixof %s %s)" % (run.term(st, args[1]), run.term(st, args[0]))))
def m_hassuffix(run, fr, ins, st, args, cont): cont(st, TV(ret(run, fr, ins), "(str.suffixof %s %s)" % (run.term(st, args[1]), run.term(st, args[0]))))
def m_contains(run, fr, ins, st, args, cont): cont(st, TV(ret(run, fr, ins), "(str.contains %s %s)" % (run.term(st, args[0]), run.term(st, args[1]))))
def m_trimsuffix(run, fr, ins, st, args, cont):
    f = run.fun("trimSuffix", ["String", "String"], "String"); cont(st, StrV([("t", App(f, run.term(st, args[0]), run.term(st, args[1])))], ret(run, fr, ins)))
def m_formatbool(run, fr, ins, st, args, cont): cont(st, StrV([("t", Ite(run.term(st, args[0]), '"true"', '"false"'))], ret(run, fr, ins)))
def m_opaque_string(run, fr, ins, st, args, cont): cont(st, StrV([("t", run.fresh("String", "text"))], ret(run, fr, ins)))
def m_opaque(run, fr, ins, st, args, cont):
    rt = ret(run, fr, ins); cont(st, TV(rt, run.fresh(run.sort(rt), "opaque")))
def m_clone_str(run, fr, ins, st, args, cont): cont(st, args[0])

# big.Float
def m_newfloat(run, fr, ins, st, args, cont):
    rt = ret(run, fr, ins); ety = rt.under.elem; V = run.model.vsort(run, ety)
    run.n += 1; oid = run.n; f = run.fun("big_of", ["S_Float"], V); run.use_sort("S_Float")
    st.objs[oid] = TV(ety, App(f, run.term(st, args[0]))); st.objty[oid] = ety; st.objty["prec", oid] = 53
    cont(st, LocP(rt, oid))
def m_setprec(run, fr, ins, st, args, cont):
    p, n = args; t = run.term(st, n)
    if not isinstance(p, LocP) or p.oid in st.pub: raise Unsupported("precision of a number that already escaped")
    if not isnum(t): raise Unsupported("computed precision")
    run.storeloc(st, p, TV(st.objty[p.oid], run.fresh(run.model.vsort(run, st.objty[p.oid]), "num")))     # rounds the value
    st.objty["prec", p.oid] = val(t); cont(st, p)
def parses(st, p):
    """A parse into p is at least as exact as a float64 (no precision yet means 64 bits)."""
    n = st.objty.get(("prec", p.oid), 0)
    return n is not None and (n == 0 or n >= 53)
def bigview(run, st, p): return run.model.view(run, st, p, None)
def m_bigcopy(run, fr, ins, st, args, cont):
    p, x = args
    if run.model.isptr(x) and not isinstance(x, (LocP, HpP)): run.ob(st, "nil dereference", Not(Eq(x.t, "nil")), fr, ins, ())
    if not isinstance(p, LocP): run.model.heap_store(run, fr, st, HpP(p.ty, run.term(st, p), p.ty.under.elem, ()), x, ins); return cont(st, p)
    t = bigview(run, st, x)
    if p.oid in st.pub: raise Unsupported("write to a number that already escaped")
    run.model.local_store(run, fr, st, p, ins)
    run.storeloc(st, p, TV(st.objty[p.oid], t)); st.objty["prec", p.oid] = None; cont(st, p)
def m_bigparse(run, fr, ins, st, args, cont):
    p, s, base = args
    V = "V_Float"; run.use_sort(V); run.fun("big_parse", ["String", "Int"], V); run.fun("big_bad", ["String", "Int"], "Bool")
    st_, b = run.term(st, s), run.term(st, base)
    bad = App("big_bad", st_, b); e = run.fresh("Iface", "err"); st.pc.append("(= (= %s nilI) (not %s))" % (e, bad))
    if not isinstance(p, LocP): run.model.heap_store(run, fr, st, HpP(p.ty, run.term(st, p), p.ty.under.elem, ()), p, ins)
    else:
        if p.oid in st.pub: raise Unsupported("write to a number that already escaped")
        c = run.fresh(V, "num")
        if parses(st, p): st.pc.append("(=> (not %s) (= %s (big_parse %s %s)))" % (bad, c, st_, b))
        run.storeloc(st, p, TV(st.objty[p.oid], c))
    cont(st, TupV([p, TV(None, run.fresh("Int", "base")), TV(None, e)]))
def m_bigparsefloat(run, fr, ins, st, args, cont): raise Unsupported("big.ParseFloat")
def m_bigstring(run, fr, ins, st, args, cont):
    p = args[0]
    if isinstance(p, TV): run.ob(st, "nil number", Not(Eq(p.t, "nil")), fr, ins, ()) if False else None
    f = run.fun("big_string", ["V_Float"], "String"); run.use_sort("V_Float")
    cont(st, StrV([("t", App(f, bigview(run, st, p)))], ret(run, fr, ins)))

MODELS = {
    "(*strings.Builder).WriteString": m_write, "(*strings.Builder).String": m_bstring, "(*strings.Builder).WriteByte": m_writebyte, "(*strings.Builder).WriteRune": m_writebyte,
    "(*strings.Builder).Len": m_blen, "(*strings.Builder).Grow": m_nop, "(*strings.Builder).Reset": m_breset,
    "(*bytes.Buffer).WriteString": m_write, "(*bytes.Buffer).String": m_bstring, "(*bytes.Buffer).WriteByte": m_writebyte, "(*bytes.Buffer).WriteRune": m_writebyte, "(*bytes.Buffer).Len": m_blen,
    "fmt.Sprintf": m_sprintf, "fmt.Fprintf": m_fprintf, "fmt.Fprint": m_fprint, "fmt.Sprint": m_sprint, "io.WriteString": m_iowritestring, "fmt.Errorf": m_errorf,
    "strings.Join": m_join, "strings.Repeat": m_repeat, "strings.TrimSuffix": m_trimsuffix, "strings.HasPrefix": m_hasprefix, "strings.HasSuffix": m_hassuffix, "strings.Contains": m_contains,
    "strings.Clone": m_clone_str, "strconv.FormatBool": m_formatbool,
    "github.com/alecthomas/repr.String": m_opaque_string, "github.com/alecthomas/repr.Hide": m_opaque,
    "math/big.NewFloat": m_newfloat, "(*math/big.Float).Copy": m_bigcopy, "(*math/big.Float).Set": m_bigcopy, "(*math/big.Float).Parse": m_bigparse, "(*math/big.Float).SetPrec": m_setprec, "(*math/big.Float).String": m_bigstring,
}
for n in ("TrimPrefix", "TrimSpace", "TrimRight", "TrimLeft", "Trim", "ReplaceAll", "ToUpper", "ToLower", "Replace", "Title", "Index", "LastIndex", "Count", "EqualFold", "IndexByte"):
    MODELS["strings." + n] = pure("str_" + n)
for n in ("Quote", "Itoa"): MODELS["strconv." + n] = pure({"Quote": "quote", "Itoa": "itoa"}[n])
