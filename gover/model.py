"""Parts of the semantics shared by the memory models: slices, channels,
interfaces, external functions."""
import re
from smt import *
from exec import *
import exec as X

class ReflV:                    # reflect.Value of a known value
    def __init__(s, v): s.v = v

class Model:
    spec_sorts = {}
    models = {}
    def __init__(s): s.pend = []
    # ---------------------------------------------------------------- defaults
    def init(s, run): s.run = run
    def begin(s, run): s.pend = []
    def entry(s, run, st): pass
    def at_exit(s, run, st, res): pass
    def keeps(s, kind, name): return True
    def exit_frame(s, run, st, ins): pass
    def local_store(s, run, fr, st, p, ins): pass
    def param(s, run, st, ty, n, i): return run.freshval(st, ty, n)
    def opaque_struct(s, ty): return False
    def opaque_field(s, run, st, x, i): raise Unsupported("field of an opaque struct")
    def expand(s, run, st, v): raise Unsupported("expand")
    def struct_term(s, run, st, v): raise Unsupported("struct as a term")
    def struct_unterm(s, run, st, ty, t): raise Unsupported("struct from a term")
    def locp_term(s, run, st, v): raise Unsupported("address of a local as a value")
    def hpp_term(s, run, st, v):
        if not v.path: return v.ref
        raise Unsupported("interior pointer as a value")
    def slice_term(s, run, st, v): raise Unsupported("slice as a term")
    def slice_unterm(s, run, st, ty, t): raise Unsupported("slice from a term")
    def concrete_map(s, run, st, ty, ins): return None
    def alloc_heap(s, run, st, ety, ins): return None
    def zero_obj(s, run, st, ety): return run.zero(ety, st)
    def store_published(s, run, fr, st, p, v, ins): raise Unsupported("write to a shared object")
    def ptr_nil(s, run, st, p): return "false"
    def havoc_special(s, run, st, v, hint):
        if isinstance(v, (CloV, FnV)): return v
        raise Unsupported("loop-carried %s" % type(v).__name__)
    def before_call(s, run, st, c, names): pass
    def after_call(s, run, st, c, names, res, env, fr, ins): pass
    def next_fact(s, run, st, I, nd, kk): pass
    def call_results(s, run, st, c, rt, names, pre):
        return [run.freshval(st, t, "res") for t in (rt.elems or [])]
    def alloc_comps(s, run_or_kind, *a): return []
    def auto_cands(s, run, fr, st, rec): return []
    def init_facts(s, run, fr, st, rec): return []
    def loop_facts(s, run, fr, st, rec): return []
    def spec_const(s, run, n, env): return None
    def spec_call(s, run, n, args, env, mode): return None
    def spec_index(s, run, x, i, env): return None
    def spec_field(s, run, x, f, env):
        if x.sort == "Iter":
            I = x.v
            if f == "done": return SV("(Array %s Bool)" % I.ks, I.done)
            if f == "dom0": return SV("(Array %s Bool)" % I.ks, I.dom0)
            if f == "m": return SV("Ref", I.m.t, I.ty)
            if f == "key":
                if I.cur is None: raise KeyError("key")
                return SV(I.ks, I.cur)
        raise Unsupported("spec: field " + f)
    def str_eq(s, run, a, b, env): return Eq(run.svt(a, env), run.svt(b, env))
    def lemma(s, run, u, env): raise Unsupported("lemma")
    def spec_same(s, run, args, env, mode): raise Unsupported("same")
    def global_load(s, run, st, p): raise Unsupported("package variable " + p.n)
    def heap_load(s, run, st, p): raise Unsupported("heap load")
    def heap_store(s, run, fr, st, p, v, ins): raise Unsupported("heap store")
    def convert(s, run, fr, st, v, ty, ins): raise Unsupported("conversion to " + ty.key)
    def make_chan(s, run, fr, ins, st): raise Unsupported("channel")
    def select(s, run, fr, ins, st, k): raise Unsupported("select")
    def recv(s, run, fr, ins, st, k): raise Unsupported("receive")
    def send(s, run, fr, ins, st): raise Unsupported("send")
    def close(s, run, fr, ins, st, a): raise Unsupported("close")
    def go(s, run, fr, ins, st): raise Unsupported("go")
    def typeassert(s, run, fr, ins, st, k): raise Unsupported("type assertion")
    def invoke(s, run, fr, ins, st, recv, m, args, cont): raise Unsupported("interface method call " + str(m))
    def call_unknown(s, run, fr, ins, st, f, args, cont): raise Unsupported("call of an unknown function")

    # ---------------------------------------------------------------- interfaces
    def iface_term(s, run, st, v):
        so = run.sort(v.dyn); nm = "box_" + re.sub(r"\W", "_", so)
        run.fun(nm, [so], "Iface"); run.fun("un" + nm, ["Iface"], so)
        run.axiom("ax_" + nm, "(forall ((x %s)) (! (and (= (un%s (%s x)) x) (not (= (%s x) nilI))) :pattern ((%s x))))" % (so, nm, nm, nm, nm))
        return App(nm, run.term(st, v.v))

    # ---------------------------------------------------------------- slices
    def back_load(s, run, st, b, p):
        if b.conc is not None and isnum(p.idx) and val(p.idx) < len(b.conc): return b.conc[val(p.idx)]
        if b.content is None: raise Unsupported("load from a slice of mixed values")
        return run.unterm(st, b.ety, Sel(b.content, p.idx))
    def back_store(s, run, st, b, i, v):
        if b.conc is not None:
            if isnum(i) and val(i) < len(b.conc): b.conc = list(b.conc); b.conc[val(i)] = v
            else: b.conc = None
        if b.content is not None:
            c = run.fresh("(Array Int %s)" % b.esort, "cont")
            st.pc.append("(= %s %s)" % (c, Sto(b.content, i, run.term(st, v))))
            if s.track(b.esort):
                st.pc.append("(=> (>= %s 0) (= %s %s))" % (i, s.elems(run, b.esort, c, "0", Add(i, "1")), Sto(s.elems(run, b.esort, b.content, "0", i), run.term(st, v), "true")))
            b.content = c
    def make_slice(s, run, st, ty, ln):
        u = ty.under; es = run.sort(u.elem)
        z = run.term(st, run.zero(u.elem, st))
        c = run.fresh("(Array Int %s)" % es, "mk")
        if ln != "0": st.pc.append("(forall ((i Int)) (! (= (select %s i) %s) :pattern ((select %s i))))" % (c, z, c))
        bid = run.newback(st, c, ln, True, es, u.elem)
        return SlV(ty, bid, "0", ln, "false")
    def slice_of_array(s, run, st, ty, a, p):
        es = run.sort(ty.under.elem); ety = ty.under.elem
        try:
            c = run.fresh("(Array Int %s)" % es, "lit")
            for i, v in enumerate(a.f): st.pc.append("(= %s %s)" % (Sel(c, num(i)), run.term(st, v)))
        except Unsupported:
            c = None
        bid = run.newback(st, c, num(len(a.f)), True, es, ety)
        st.backs[bid].conc = list(a.f)
        if c is not None: s.elems_facts_lit(run, st, es, c, a)
        return SlV(ty, bid, "0", num(len(a.f)), "false")
    def elems_facts_lit(s, run, st, es, c, a): pass
    def fresh_owned(s, run, st, ety, hint, off, ln):
        es = run.sort(ety)
        return run.newback(st, run.fresh("(Array Int %s)" % es, hint + "_c"), Add(off, ln), True, es, ety)
    def havoc_back(s, run, st, b):
        b.content = run.fresh("(Array Int %s)" % b.esort, "cont"); b.conc = None
        b.hw = run.fresh("Int", "hw")
    def track(s, es): return es.startswith("S_")
    def elems(s, run, es, c, o, n):
        f = "elems_" + es; a = "(Array Int %s)" % es
        run.fun(f, [a, "Int", "Int"], "(Array %s Bool)" % es)
        run.fun("idx_" + es, [a, "Int", "Int", es], "Int")
        run.axiom("ax_" + f, "(and (forall ((c %s) (o Int) (n Int) (x %s)) (! (=> (select (%s c o n) x) (and (<= o (idx_%s c o n x)) (< (idx_%s c o n x) (+ o n)) (= (select c (idx_%s c o n x)) x))) :pattern ((select (%s c o n) x))))"
            " (forall ((c %s) (o Int) (n Int) (i Int)) (! (=> (and (<= o i) (< i (+ o n))) (select (%s c o n) (select c i))) :pattern ((%s c o n) (select c i))))"
            " (forall ((c %s) (o Int)) (! (= (%s c o 0) ((as const (Array %s Bool)) false)) :pattern ((%s c o 0)))))" % (a, es, f, es, es, es, f, a, f, f, a, f, es, f))
        return App(f, c, o, n)
    def append(s, run, fr, ins, st, x, y):
        ty = x.ty if x.ty.under.k == "slice" else y.ty
        if isinstance(y, StrV): y = s.string_slice(run, st, x.ty, y)
        u = ty.under; es = run.sort(u.elem)
        yb = st.backs.get(y.bid) if y.bid is not None else None
        if y.bid is None: return x
        if x.bid is not None:
            run.ob(st, "append only extends a slice whose tail nobody else uses", run.owned(st, x), fr, ins, run.tags_safety(), "frame")
        xb = st.backs.get(x.bid) if x.bid is not None else None
        if yb.conc is not None and isnum(y.ln) and isnum(y.off):
            items = yb.conc[val(y.off):val(y.off) + val(y.ln)]
            conc = None
            if xb is None: conc = list(items)
            elif xb.conc is not None and isnum(x.ln) and x.off == "0": conc = xb.conc[:val(x.ln)] + list(items)
            off = x.off
            if xb is None: content = run.fresh("(Array Int %s)" % es, "ap"); off = "0"
            else: content = xb.content
            ln = x.ln
            if content is not None:
                try:
                    for v in items:
                        vt = run.term(st, v); pos = Add(off, ln)
                        c2 = run.fresh("(Array Int %s)" % es, "ap")
                        st.pc.append("(= %s %s)" % (c2, Sto(content, pos, vt)))
                        if s.track(es):
                            st.pc.append("(= %s %s)" % (s.elems(run, es, c2, off, Add(ln, "1")), Sto(s.elems(run, es, content, off, ln), vt, "true")))
                        s.grown(run, st, u.elem, content if xb is not None or ln != x.ln else None, c2, off, ln, vt)
                        content = c2; ln = Add(ln, "1")
                except Unsupported:
                    if conc is None: raise
                    content = None; ln = num(len(conc))
            else:
                if conc is None: raise Unsupported("append to a slice of mixed values")
                ln = num(len(conc))
        else:
            if yb.content is None or (xb is not None and xb.content is None): raise Unsupported("append of mixed values")
            content = run.fresh("(Array Int %s)" % es, "ap"); off = "0"; conc = None
            ln = Add(x.ln, y.ln)
            s.append_facts(run, st, es, content, x, xb, y, yb)
            run.n += 1; q = "i?%d" % run.n
            if xb is not None:
                st.pc.append("(forall ((%s Int)) (! (=> (and (<= 0 %s) (< %s %s)) (= (select %s %s) (select %s (+ %s %s)))) :pattern ((select %s %s))))" % (q, q, q, x.ln, content, q, xb.content, x.off, q, content, q))
            st.pc.append("(forall ((%s Int)) (! (=> (and (<= %s %s) (< %s %s)) (= (select %s %s) (select %s (+ %s (- %s %s))))) :pattern ((select %s %s))))" % (q, x.ln, q, q, ln, content, q, yb.content, y.off, q, x.ln, content, q))
            if xb is not None and xb.fresh:
                nb = xb.copy(); nb.hw = run.fresh("Int", "hw"); st.backs[x.bid] = nb
            bid = run.newback(st, content, ln, True, es, u.elem)
            return SlV(ty, bid, "0", ln, And(x.nilt, Eq(y.ln, "0")))
        if xb is None or not xb.fresh or xb.shared:
            bid = run.newback(st, content, Add(off, ln), True, es, u.elem)
            st.backs[bid].conc = conc
        else:
            nb = xb.copy(); nb.content = content; nb.hw = Add(off, ln); nb.conc = conc
            bid = x.bid; st.backs[bid] = nb
        return SlV(ty, bid, off, ln, "false" if ln != x.ln else x.nilt)
    def append_facts(s, run, st, es, content, x, xb, y, yb): pass
    def grown(s, run, st, ety, old, new, off, ln, vt): pass
    def string_slice(s, run, st, ty, v): raise Unsupported("append of a string to bytes")
    def sliced(s, run, st, x, r, lo):
        b = st.backs.get(x.bid)
        if b is None or b.content is None or not s.track(b.esort): return
        if lo == "1" and r.ln == Sub(x.ln, "1"):
            es = b.esort
            st.pc.append("(= %s %s)" % (s.elems(run, es, b.content, x.off, x.ln), Sto(s.elems(run, es, b.content, r.off, r.ln), Sel(b.content, x.off), "true")))
    def copy_slice(s, run, fr, ins, st, a, b): raise Unsupported("copy")

    # ---------------------------------------------------------------- metavariables of invariant templates
    def bind_options(s, run, fr, st, rec, kind):
        ent = rec["entry"]; out = []
        if kind == "iter":
            for nm, I, r in run.active_iters(st):
                out.append((nm, lambda st2, nm=nm: next((SV("Iter", None, None, J) for n2, J, _ in run.active_iters(st2) if n2 == nm), None)))
        elif kind in ("set", "tmap", "emap"):
            last = {}
            for nm, ref, ty in ent.maps: last[nm] = (ref, ty)
            for nm, (ref, ty) in last.items():
                u = ty.under
                k = "emap" if u.elem.under.k == "map" else "set" if (run.sort(u.elem) == run.sort(u.mkey)) else "tmap"
                if k == kind: out.append((nm, lambda st2, ref=ref, ty=ty: SV("Ref", ref, ty)))
        elif kind in ("slice", "int", "bool"):
            for key, r in st.loops.items():
                for ins in r["blk"]["instrs"]:
                    if ins["op"] == "DebugRef": continue
                    if ins["op"] != "Phi": break
                    v = st.regs.get(r["fid"], {}).get(ins["r"])
                    if kind == "slice" and isinstance(v, SlV) or kind == "int" and isinstance(v, TV) and v.ty is not None and run.sort(v.ty) == "Int" or kind == "bool" and isinstance(v, TV) and v.ty is not None and run.sort(v.ty) == "Bool":
                        out.append((r["key"] + "/" + ins["r"], lambda st2, f=r["fid"], n=ins["r"]: run.sv(st2, st2.regs[f][n], st2.regs[f][n].ty)))
            if kind == "slice":     # slices whose elements an active loop writes
                for r in st.loops.values():
                    for n, v in r["entry"].regs[r["fid"]].items():
                        if isinstance(v, SlV) and v.bid in r["mods"]["backs"] and not any(o[0] == r["key"] + "/" + n for o in out):
                            out.append((r["key"] + "/" + n, lambda st2, f=r["fid"], n=n: run.sv(st2, st2.regs[f][n], st2.regs[f][n].ty)))
            seen = set()            # variables that live in memory (captured by a closure) and that an active loop changes
            for r in st.loops.values():
                for oid, path in sorted(r["mods"]["objs"]):
                    v = st.objs.get(oid)
                    if path or oid in seen or v is None or oid not in run.objname: continue
                    seen.add(oid)
                    if kind == "slice" and isinstance(v, SlV) or kind in ("int", "bool") and isinstance(v, TV) and v.ty is not None and run.sort(v.ty) == kind.capitalize():
                        out.append((run.objname[oid], lambda st2, o=oid: run.sv(st2, st2.objs[o], run_ty(st2, o))))
        elif kind == "chan":        # delivery channels at hand, made here or received from a callee
            seen = set()
            for r, ty in st.chans:
                if not s.isstop(ty) and r not in seen: seen.add(r); out.append(("made", lambda st2, r=r, ty=ty: SV("Ref", r, ty)))
            for n, v in ent.regs[rec["fid"]].items():
                if isinstance(v, TV) and v.ty is not None and v.ty.under.k == "chan" and not s.isstop(v.ty) and v.t not in seen:
                    seen.add(v.t); out.append((n, lambda st2, v=v: SV("Ref", v.t, v.ty)))
        elif kind == "elt":
            for n, v in ent.regs[rec["fid"]].items():
                if isinstance(v, TV) and v.ty is not None and v.ty.k == "tparam" and (fr.depth or not any(p["n"] == n for p in fr.fn["params"])):
                    out.append((n, lambda st2, t=v: SV(run.sort(t.ty), t.t, t.ty)))
        else: raise Unsupported("metavariable kind " + kind)
        return out

def run_ty(st, oid): return st.objty[oid]
def m_valueof(run, fr, ins, st, args, cont):
    a = args[0]
    if not isinstance(a, IfV): raise Unsupported("reflect.ValueOf of an unknown interface")
    cont(st, ReflV(a))
def m_iszero(run, fr, ins, st, args, cont):
    a = args[0].v
    cont(st, TV(run.mod.ty(ins["t"], fr.env), Eq(run.term(st, a.v), run.term(st, run.zero(a.dyn, st)))))
Model.models = {"reflect.ValueOf": m_valueof, "(reflect.Value).IsZero": m_iszero}
