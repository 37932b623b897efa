"""E11: the parse entry points. participle itself is assumed: a parser built from the same grammar,
lexer rules and options gives, for the same text, the same tree or the same failure."""
import hashlib
from smt import *
import exec as X
from exec import *
import etxmodel as E
from etxlex import KV, literal, decode, closed
P2 = "github.com/alecthomas/participle/v2."; LX = P2[:-1] + "/lexer."; NAMES = ("Parse", "ParseString", "ParseBytes")

def unbox(v): return v.v if isinstance(v, IfV) else v
def const(run, v):
    v = unbox(v)
    if isinstance(v, StrV) and v.lit() is not None: return v.lit()
    if isinstance(v, TV) and (isnum(v.t) or v.t in ("true", "false")): return v.t
    if isinstance(v, SlV): return tuple(const(run, x) for x in E.varargs(run, run.cur, v))
    raise Unsupported("parser option that is not a constant")
def option(k):
    def m(run, fr, ins, st, args, cont):
        run.cur = st; cont(st, KV(E.ret(run, fr, ins), "option", (k,) + tuple(const(run, a) for a in args)))
    return m
def options(run, st, v):
    out = []
    for x in E.varargs(run, st, v):
        x = unbox(x)
        if not isinstance(x, KV) or x.k != "option": raise Unsupported("parser option")
        out.append(x.a)
    return tuple(out)
def m_stateful(pair):
    def m(run, fr, ins, st, args, cont):
        if len(args) > 1: options(run, st, args[1])
        rt = E.ret(run, fr, ins); v = KV(rt.elems[0] if pair else rt, "lexer", repr(sorted(decode(run, st, args[0]).items())))
        cont(st, TupV([v, TV(None, "nilI")]) if pair else v)
    return m
def m_lexer(run, fr, ins, st, args, cont):
    v = unbox(args[0])
    if not isinstance(v, KV) or v.k != "lexer": raise Unsupported("lexer definition")
    cont(st, KV(E.ret(run, fr, ins), "option", ("Lexer", v.a)))
def m_build(pair):
    def m(run, fr, ins, st, args, cont):
        if not isinstance(args[0], IfV): raise Unsupported("grammar of unknown type")
        rt = E.ret(run, fr, ins)
        # an option given twice: the later one counts, so the order is kept
        v = KV(rt.elems[0] if pair else rt, "parser", (args[0].dyn.key, options(run, st, args[1])))
        cont(st, TupV([v, TV(None, "nilI")]) if pair else v)
    return m
def m_newreader(run, fr, ins, st, args, cont):
    import etxmore
    cont(st, KV(E.ret(run, fr, ins), "reader", etxmore.text_of(run.model, run, st, args[0])))
def decls(run):
    A = run.mod.ty(E.ETX + ".AST"); V = run.model.vsort(run, A)
    run.fun("parse_bad", ["Int", "String", "String"], "Bool"); run.fun("parsed", ["Int", "String", "String"], V)
    run.fun("readall", ["Iface"], "String"); run.fun("read_fails", ["Iface"], "Bool"); run.fun("linked", [V], "Bool"); run.fun("sametree", [V, V], "Bool"); run.fun("unwrap", ["Iface"], "Iface")
    return A, V
def source(run, st, v):
    """(text, cannot be read) of a source of any of the three kinds"""
    import etxmore
    decls(run); u = unbox(v)
    if isinstance(u, KV) and u.k == "reader": return u.a, "false"
    if isinstance(u, (StrV, SlV)) or isinstance(u, TV) and u.ty is not None and run.sort(u.ty) == "String": return etxmore.text_of(run.model, run, st, u), "false"
    r = run.term(st, v); return App("readall", r), App("read_fails", r)
def m_readall(run, fr, ins, st, args, cont):
    import etxmore
    t, bad = source(run, st, args[0]); e = run.fresh("Iface", "err"); st.pc.append("(= (= %s nilI) (not %s))" % (e, bad)); run.errs.append((e, bad))
    d = run.fresh("String", "data"); st.pc.append("(=> (not %s) (= %s %s))" % (bad, d, t))
    rt = E.ret(run, fr, ins)
    cont(st, TupV([etxmore.string_slice(run.model, run, st, rt.elems[0], StrV([("t", d)]), True), TV(None, e)]))
def pid(k): return str(int(hashlib.sha256(repr(k).encode()).hexdigest()[:12], 16))
def empty(run, A, v):
    """Nothing that the parser would add to is there yet."""
    out = []
    for i, f in enumerate(A.under.fields):
        x = App(run.model.acc(run, A, i), v); k = f[1].under.k
        if k == "slice": out.append("(= (sl_len %s) 0)" % x)
        elif k == "ptr": out.append("(= %s nil)" % x)
        elif run.sort(f[1]) == "String": out.append('(= %s "")' % x)
    return And(*out)
def m_parse(run, fr, ins, st, args, cont):
    p, name, src, dest = args[:4]
    if not isinstance(p, KV) or p.k != "parser": raise Unsupported("parser that is not known")
    key = (p.a, options(run, st, args[4]) if len(args) > 4 else ())
    n = literal(run, name, "file name"); run.model.parsedwith.append((key, n))
    if not isinstance(dest, IfV) or not isinstance(dest.v, LocP) or dest.v.oid in st.pub: raise Unsupported("parse into an object this function did not make")
    A, V = decls(run)
    if st.objty[dest.v.oid].key != A.key: raise Unsupported("parse into other than an AST")
    t, rbad = source(run, st, src); bad = Or(rbad, "(parse_bad %s %s %s)" % (pid(key), smtstr(n), t))
    e = run.fresh("Iface", "err"); st.pc.append("(= (= %s nilI) (not %s))" % (e, bad)); run.errs.append((e, bad))
    old = run.term(st, run.loadloc(st, dest.v)); c = run.fresh(V, "tree")
    st.pc.append(Imp(And(Not(bad), empty(run, A, old)), "(= %s (parsed %s %s %s))" % (c, pid(key), smtstr(n), t)))
    run.storeloc(st, dest.v, TV(A, c))
    cont(st, TV(E.ret(run, fr, ins), e))

class Link(E.Contract):
    """(*AST).UpdateParentRefs: E04 says what it does; here only that it links the tree and changes nothing else"""
    def apply(s, run, fr, ins, st, fn, env, args, cont):
        a = args[0]; run.calls.add(s.name); A, V = decls(run)
        run.oblige(st, "precondition receiver of %s" % s.name, Not(run.model.isnil(run, st, a)), (), "pre", pos=ins.get("pos", ""))
        if not isinstance(a, LocP) or a.path or a.oid in st.pub: raise Unsupported("parent links of an object this function did not make")
        old = run.term(st, run.loadloc(st, a)); c = run.fresh(V, "tree")
        st.pc += ["(linked %s)" % c, "(sametree %s %s)" % (old, c), "(forall ((x %s)) (! (=> (sametree x %s) (sametree x %s)) :pattern ((sametree x %s))))" % (V, old, c, old)]
        run.storeloc(st, a, TV(A, c)); cont(st, run.pack([]))
class Entry(E.Contract):
    def pre(s, run, st, args, mode): decls(run); return []
    def post(s, run, st, args, res, mode):
        A, V = decls(run); M = run.model; key, n = reference(run)
        t, rbad = source(run, st, args[0]); bad = Or(rbad, "(parse_bad %s %s %s)" % (pid(key), smtstr(n), t))
        tree, err = res; ok = "(not %s)" % bad; e = run.term(st, err); tn = M.isnil(run, st, tree)
        out = [("an error is returned exactly when the parser rejects the source", Eq(Eq(e, "nilI"), ok))]
        if mode == "assume":
            f = run.fresh("Iface", "cause"); run.errs.append((f, bad)); out.append(("cause", Imp(bad, And(Not(Eq(f, "nilI")), Or(Eq(e, f), Eq(App("unwrap", e), f))))))
        else:
            u = [e]
            for _ in range(3): u.append(App("unwrap", u[-1]))
            out.append(("the error wraps the parser's", Imp(bad, Or(*[And(b, Eq(x, f)) for f, b in run.errs for x in u]))))
        out.append(("no tree is returned with an error", Imp(bad, tn)))
        if tn == "true": out.append(("a tree is returned", bad)); return out
        v = M.view(run, st, tree, A)
        return out + [("a tree is returned", Imp(ok, Not(tn))), ("the parent links are set", Imp(ok, "(linked %s)" % v)),
                      ("the tree is the parser's", Imp(ok, "(sametree (parsed %s %s %s) %s)" % (pid(key), smtstr(n), t, v)))]
def reference(run):
    """The parser, its options and the file name that ParseString uses."""
    sp = run.sp
    if hasattr(sp, "refparse"): return sp.refparse
    full = [f for f in run.mod.funcs if X.short(f) == "ParseString" and not run.mod.funcs[f].get("synth")]
    if not full: raise Unsupported("ParseString not found")
    class P: prop = sp.prop; contracts = {k: c for k, c in sp.contracts.items() if isinstance(c, Link)}; defs = {}; types = sp.types
    m = E.EtxModel(run.mod); m.parsedwith = []
    r = X.Run(run.mod, P, full[0], m); r.errs = []; r.redo = False; r.hint = None; r.run()
    while r.redo: r.redo = False; m.parsedwith.clear(); r.run()
    got = {repr(x): x for x in m.parsedwith}
    if len(got) != 1: raise Unsupported("ParseString does not use one parser")
    sp.refparse = list(got.values())[0]; return sp.refparse
MODELS = {P2 + "Lexer": m_lexer, LX + "MustStateful": m_stateful(False), LX + "NewStateful": m_stateful(True), LX + "New": m_stateful(True), LX + "Must": lambda run, fr, ins, st, args, cont: cont(st, args[0]),
          P2 + "MustBuild": m_build(False), P2 + "Build": m_build(True), "strings.NewReader": m_newreader, "bytes.NewReader": m_newreader, "bytes.NewBufferString": m_newreader, "bytes.NewBuffer": m_newreader,
          "io.ReadAll": m_readall, "io/ioutil.ReadAll": m_readall}
def m_is(run, fr, ins, st, args, cont):
    run.fun("unwrap", ["Iface"], "Iface"); run.fun("err_is", ["Iface", "Iface"], "Bool")
    e, t = run.term(st, args[0]), run.term(st, args[1]); b = "(err_is %s %s)" % (e, t)
    st.pc += [Imp(And(Eq(e, t), Not(Eq(t, "nilI"))), b), Imp(And(Eq(e, "nilI"), Not(Eq(t, "nilI"))), Not(b))]
    cont(st, TV(E.ret(run, fr, ins), b))
def m_unwrap(run, fr, ins, st, args, cont):
    run.fun("unwrap", ["Iface"], "Iface"); cont(st, TV(E.ret(run, fr, ins), App("unwrap", run.term(st, args[0]))))
MODELS["errors.Is"] = m_is; MODELS["errors.Unwrap"] = m_unwrap
for n in NAMES: MODELS["(*%sParser).%s" % (P2, n)] = m_parse
for n in ("UseLookahead", "CaseInsensitive", "Elide", "Unquote", "Upper", "AllowTrailing"): MODELS[P2 + n] = option(n)
def contracts(sp):
    if sp.prop != "E11": return
    sp.contracts["AST.UpdateParentRefs"] = Link("AST.UpdateParentRefs", "link", None, ())
    for n in NAMES: sp.contracts[n] = Entry(n, "parse", None, ("E11",))
