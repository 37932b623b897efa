"""Contracts of the rest of pkg/etx: parent links, captures, indentation,
parse entry points, lexer rules."""
import re
from smt import *
import exec as X
from exec import *
import etxmodel as E
import etxlex, etxparse, etxlink
MODELS = dict(etxlex.MODELS); MODELS.update(etxparse.MODELS)
def contracts(sp):
    etxlex.contracts(sp); etxparse.contracts(sp)
    for n in ("indent", "indentBytes"):
        full = [k for k in sp.mod.funcs if X.short(k) == n]
        if full and ("indent" == n or sp.prop == "E10"):
            c = sp.contracts.setdefault(n, IndentText(n, "indent", None, ()))
            if n == "indent" : sp.contracts[n] = c = IndentText(n, "indent", None, ("E05", "E07", "E10"))
            else: c.props = {"E10"}; c.tags = {"E10"}
    etxlink.contracts(sp)

# ---------------------------------------------------------------- bytes: a byte slice has a text
def isbyte(ety): return ety.under.k == "basic" and ety.under.name in ("uint8", "byte")
BA = "(Array Int Int)"
def txt(run, c, off, n):
    run.fun("txt", [BA, "Int", "Int"], "String"); return "(txt %s %s %s)" % (c, off, n)
def text_of(M, run, st, v):
    """The text of a byte slice."""
    if isinstance(v, StrV): return v.term()
    if isinstance(v, SlV):
        if v.bid is None: return '""'
        b = st.backs[v.bid]
        if b.content is None: raise Unsupported("bytes of mixed values")
        t = txt(run, b.content, v.off, v.ln)
        st.pc.append("(=> (= %s 0) (= %s \"\"))" % (v.ln, t)) if v.ln != "0" else st.pc.append("(= %s \"\")" % t)
        return t
    return run.term(st, v)
def string_slice(M, run, st, ty, v, own):
    t = v.term() if isinstance(v, StrV) else run.term(st, v)
    c = run.fresh(BA, "bytes"); ln = run.fresh("Int", "len")
    st.pc += ["(= %s (str.len %s))" % (ln, t), "(>= %s 0)" % ln, Eq(txt(run, c, "0", ln), t),
              "(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (and (= (select %s i) (str.to_code (str.at %s i))) (<= 0 (select %s i)) (<= (select %s i) 255))) :pattern ((select %s i))))" % (ln, c, t, c, c, c)]
    bid = run.newback(st, c, None if not own else ln, own, "Int", ty.under.elem)
    return SlV(ty, bid, "0", ln, "false" if own else run.fresh("Bool", "isnil") if False else "false")
def grown(M, run, st, old, new, off, ln, vt):
    pre = txt(run, old, off, ln) if old is not None else '""'
    if old is not None: st.pc.append("(=> (= %s 0) (= %s \"\"))" % (ln, pre))
    st.pc.append("(=> (and (<= 0 %s) (<= %s 255)) (= %s (str.++ %s (str.from_code %s))))" % (vt, vt, txt(run, new, off, Add(ln, "1")), pre, vt))
def joined(M, run, st, content, x, xb, y, yb):
    a = txt(run, xb.content, x.off, x.ln) if xb is not None else '""'
    if xb is not None: st.pc.append("(=> (= %s 0) (= %s \"\"))" % (x.ln, a))
    b = txt(run, yb.content, y.off, y.ln); st.pc.append("(=> (= %s 0) (= %s \"\"))" % (y.ln, b))
    st.pc.append("(= %s (str.++ %s %s))" % (txt(run, content, "0", Add(x.ln, y.ln)), a, b))
def cut(M, run, st, x, r, lo):
    b = st.backs.get(x.bid)
    if b is None or b.content is None: return
    st.pc.append("(= %s (str.substr %s %s %s))" % (txt(run, b.content, r.off, r.ln), txt(run, b.content, x.off, x.ln), lo, r.ln))

class IndentText(E.Indent):
    """indent and indentBytes: the result is I(text, prefix, length of the text), where
    I(s, p, 0) = "" and I(s, p, k+1) = I(s, p, k) ++ (p if a non-empty line starts at k) ++ s[k]"""
    def post(s, run, st, args, res, mode):
        if run.sp.prop != "E10": return []
        a, p = text_of(run.model, run, st, args[0]), text_of(run.model, run, st, args[1])
        st.pc.append('(= (I %s %s 0) "")' % (a, p)) if run.fun("I", ["String", "String", "Int"], "String") else None
        return [("the prefix is inserted at the start of every non-empty line and nothing else is changed", Eq(text_of(run.model, run, st, res[0]), "(I %s %s (str.len %s))" % (a, p, a)))]
    def results_of(s, run, st, fn, env, args):
        if run.sp.prop != "E10": return E.Indent.results_of(s, run, st, fn, env, args)
        return E.Contract.results_of(s, run, st, fn, env, args)
def sp_text(run, st): return text_of(run.model, run, st, run.entryargs[0]), text_of(run.model, run, st, run.entryargs[1])
def unfoldI(a, p, k):
    c = "(str.at %s %s)" % (a, k); nl = smtstr("\n")
    return "(=> (and (<= 0 %s) (< %s (str.len %s))) (= (I %s %s %s) (str.++ (I %s %s %s) (ite (and (or (= %s 0) (= (str.at %s (- %s 1)) %s)) (not (= %s %s))) %s \"\") %s)))" % (k, k, a, a, p, Add(k, "1"), a, p, k, k, a, k, nl, c, nl, p, c)

def heap_store(M, run, fr, st, p, v, ins): return etxlink.heap_store(M, run, fr, st, p, v, ins)
def heap_load(M, run, st, p): return etxlink.heap_load(M, run, st, p)
def invoke(M, run, fr, ins, st, recv, name, args, cont): return etxlink.invoke(M, run, fr, ins, st, recv, name, args, cont)
def convert(M, run, fr, st, v, ty, ins):
    if ty.under.k == "slice" and isbyte(ty.under.elem) and (isinstance(v, StrV) or isinstance(v, TV) and run.sort(v.ty) == "String"): return string_slice(M, run, st, ty, v, True)
    if run.sort(ty) == "String" and isinstance(v, SlV) and isbyte(v.ty.under.elem): return StrV([("t", text_of(M, run, st, v))], ty)
    if isinstance(v, TV) and run.sort(ty) == "Int" and v.ty is not None and run.sort(v.ty) == "Int" and v.ty.under.name in ("uint8", "byte") : return TV(ty, v.t)
    if run.sort(ty) == "String" and isinstance(v, TV) and run.sort(v.ty) == "Int" and isbyte(v.ty):
        st.pc.append("(and (<= 0 %s) (<= %s 255))" % (v.t, v.t)) if not isnum(v.t) else None
        raise Unsupported("conversion of a byte to a string")
    raise Unsupported("conversion to " + ty.key)
def global_load(M, run, st, p): return etxlex.global_load(M, run, st, p)
def cands(M, run, fr, st, rec):
    out = etxlink.cands(M, run, fr, st, rec); key = rec["key"]
    if run.sp.prop == "E10" and isinstance(run.c, IndentText):
        run.fun("I", ["String", "String", "Int"], "String")
        a, p = sp_text(run, st)
        for cn, _ in M.progress(run, fr, rec, st):
            def cnt(st2, cn=cn): return dict(M.progress(run, fr, rec, st2)).get(cn)
            out.append(("%s|in|%s" % (key, cn), "%s within the text" % cn, ("py", lambda sr, st2, cnt=cnt: And(Le("0", cnt(st2)), Le(cnt(st2), "(str.len %s)" % a)))))
            for tn, t0, get in M.targets(run, fr, rec, st):
                if isinstance(t0, SlV) and not isbyte(t0.ty.under.elem): continue
                def tx(sr, st2, get=get, t0=t0, cnt=cnt):
                    v = get(st2)
                    if not isinstance(v, (SlV, StrV)): return None
                    n = len(st2.pc); t = text_of(M, run, st2, v); t00 = text_of(M, run, rec["entry"], t0)
                    return Eq(t, "(str.++ %s (I %s %s %s))" % (t00, a, p, cnt(st2)) if t00 != '""' else "(I %s %s %s)" % (a, p, cnt(st2)))
                out.append(("%s|indented|%s|%s" % (key, tn, cn), "%s is the indented text so far" % tn, ("py", tx)))
            for r, v in rec["pv"].items():
                if isinstance(v, TV) and v.ty is not None and run.sort(v.ty) == "Bool":
                    for neg in (False, True):
                        def bl(sr, st2, r=r, cnt=cnt, neg=neg):
                            b = st2.regs[rec["fid"]][r].t; k = cnt(st2)
                            return Eq(Not(b) if neg else b, "(or (= %s 0) (= (str.at %s (- %s 1)) %s))" % (k, a, k, smtstr("\n")))
                        out.append(("%s|bol|%s|%s|%s" % (key, r, cn, neg), "%s tells a line start" % r, ("py", bl)))
    return out
def init_facts(M, run, fr, st, rec):
    if run.sp.prop == "E10" and isinstance(run.c, IndentText):
        run.fun("I", ["String", "String", "Int"], "String"); a, p = sp_text(run, st); return ['(= (I %s %s 0) "")' % (a, p)]
    return []
def loop_facts(M, run, fr, st, rec):
    out = []
    if run.sp.prop == "E10" and isinstance(run.c, IndentText):
        a, p = sp_text(run, st)
        for cn, n in M.progress(run, fr, rec, st): out.append(unfoldI(a, p, n))
    return out
