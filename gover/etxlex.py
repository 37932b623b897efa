"""Regular expressions, the lexer's rules, and the capture functions of pkg/etx
(properties E08, E09, E12)."""
import re
from smt import *
import exec as X
from exec import *
import etxmodel as E

# ---------------------------------------------------------------- regular expressions (Go syntax)
class Rx:
    """Parses the part of RE2's syntax the package uses into a tree."""
    CL = {"d": [(48, 57)], "w": [(48, 57), (65, 90), (95, 95), (97, 122)], "s": [(9, 10), (12, 13), (32, 32)]}
    POSIX = {"alpha": [(65, 90), (97, 122)], "digit": [(48, 57)], "alnum": [(48, 57), (65, 90), (97, 122)], "upper": [(65, 90)], "lower": [(97, 122)], "word": [(48, 57), (65, 90), (95, 95), (97, 122)],
             "space": [(9, 13), (32, 32)], "blank": [(9, 9), (32, 32)], "xdigit": [(48, 57), (65, 70), (97, 102)], "punct": [(33, 47), (58, 64), (91, 96), (123, 126)]}
    ESC = {"n": 10, "t": 9, "r": 13, "f": 12, "v": 11, "a": 7}
    def __init__(s, src):
        s.src = src; s.i = 0; s.groups = 0
        s.tree = s.alt()
        if s.i < len(src): s.bad()
    def bad(s): raise Unsupported("regular expression %r" % s.src)
    def peek(s): return s.src[s.i] if s.i < len(s.src) else None
    def alt(s):
        xs = [s.cat()]
        while s.peek() == "|": s.i += 1; xs.append(s.cat())
        return xs[0] if len(xs) == 1 else ("alt", xs)
    def cat(s):
        xs = []
        while s.peek() not in (None, "|", ")"):
            x = s.atom()
            while s.peek() in ("*", "+", "?") or (s.peek() == "{" and re.match(r"\{\d+(,\d*)?\}", s.src[s.i:])):
                c = s.peek()
                if c == "{":
                    m = re.match(r"\{(\d+)(,(\d*))?\}", s.src[s.i:]); s.i += m.end()
                    lo = int(m.group(1)); hi = lo if m.group(2) is None else (int(m.group(3)) if m.group(3) else None)
                else: s.i += 1; lo, hi = {"*": (0, None), "+": (1, None), "?": (0, 1)}[c]
                if s.peek() == "?": s.i += 1         # lazy: the same language
                x = ("rep", x, lo, hi)
            xs.append(x)
        return xs[0] if len(xs) == 1 else ("cat", xs)
    def atom(s):
        c = s.src[s.i]; s.i += 1
        if c == "(":
            if s.src.startswith("?:", s.i): s.i += 2; x = s.alt(); n = None
            elif s.peek() == "?":
                m = re.match(r"\?P?<\w+>", s.src[s.i:])
                if not m: s.bad()
                s.i += m.end(); s.groups += 1; n = s.groups; x = s.alt()
            else: s.groups += 1; n = s.groups; x = s.alt()
            if s.peek() != ")": s.bad()
            s.i += 1
            return x if n is None else ("grp", n, x)
        if c == ".": return ("set", [(10, 10)], True)
        if c == "^": return ("bol",)
        if c == "$": return ("eol",)
        if c == "[": return s.klass()
        if c == "\\": return s.esc()
        if c in "*+?)": s.bad()
        return ("set", [(ord(c), ord(c))], False)
    def esc(s, incls=False):
        c = s.peek()
        if c is None: s.bad()
        s.i += 1
        if c in s.CL: return ("set", s.CL[c], False)
        if c.lower() in s.CL and c.isupper(): return ("set", s.CL[c.lower()], True)
        if c == "b" and not incls: return ("wb",)
        if c == "A" and not incls: return ("bol",)
        if c == "z" and not incls: return ("eol",)
        if c in s.ESC: n = s.ESC[c]; return ("set", [(n, n)], False)
        if c == "x":
            m = re.match(r"([0-9a-fA-F]{2})|\{([0-9a-fA-F]+)\}", s.src[s.i:])
            if not m: s.bad()
            s.i += m.end(); n = int(m.group(1) or m.group(2), 16); return ("set", [(n, n)], False)
        if c.isalnum(): s.bad()
        return ("set", [(ord(c), ord(c))], False)
    def klass(s):
        neg = False; rs = []
        if s.peek() == "^": neg = True; s.i += 1
        first = True
        while s.peek() != "]" or first:
            if s.peek() is None: s.bad()
            first = False
            m = re.match(r"\[:(\w+):\]", s.src[s.i:])
            if m:
                if m.group(1) not in s.POSIX: s.bad()
                rs += s.POSIX[m.group(1)]; s.i += m.end(); continue
            c = s.src[s.i]; s.i += 1
            if c == "\\":
                x = s.esc(True)
                if x[2]: s.bad()
                if len(x[1]) != 1 or x[1][0][0] != x[1][0][1]: rs += x[1]; continue
                a = x[1][0][0]
            else: a = ord(c)
            if s.peek() == "-" and s.i + 1 < len(s.src) and s.src[s.i + 1] != "]":
                s.i += 1; c = s.src[s.i]; s.i += 1
                if c == "\\": b = s.esc(True)[1][0][0]
                else: b = ord(c)
                rs.append((a, b))
            else: rs.append((a, a))
        s.i += 1
        return ("set", rs, neg)

ALL = "(re.* re.allchar)"
def ch(n): return '"\\u{%x}"' % n if n < 32 or n > 126 or n in (34, 92) else '"%s"' % chr(n)
def relan(x):
    """The language of a tree without anchors."""
    k = x[0]
    if k == "set":
        rs = ["(str.to_re %s)" % ch(a) if a == b else "(re.range %s %s)" % (ch(a), ch(b)) for a, b in x[1]]
        u = rs[0] if len(rs) == 1 else "(re.union %s)" % " ".join(rs)
        return "(re.diff re.allchar %s)" % u if x[2] else u
    if k == "cat":
        xs = [relan(y) for y in x[1]]
        return '(str.to_re "")' if not xs else xs[0] if len(xs) == 1 else "(re.++ %s)" % " ".join(xs)
    if k == "alt": return "(re.union %s)" % " ".join(relan(y) for y in x[1])
    if k == "grp": return relan(x[2])
    if k == "rep":
        r = relan(x[1]); lo, hi = x[2], x[3]
        if (lo, hi) == (0, None): return "(re.* %s)" % r
        if (lo, hi) == (1, None): return "(re.+ %s)" % r
        if (lo, hi) == (0, 1): return "(re.opt %s)" % r
        if hi is None: return "(re.++ ((_ re.^ %d) %s) (re.* %s))" % (lo, r, r)
        return "((_ re.loop %d %d) %s)" % (lo, hi, r)
    raise Unsupported("anchor inside a regular expression")
def items(t): return t[1] if t[0] == "cat" else [t]
def strip(tree):
    """(starts at the beginning, ends at the end, items between)"""
    xs = list(items(tree)); b = e = False
    while xs and xs[0] == ("bol",): b = True; xs = xs[1:]
    while xs and xs[-1] == ("eol",): e = True; xs = xs[:-1]
    return b, e, xs

class ReV:                      # a compiled regular expression
    __slots__ = ("ty", "src", "rx")
    def __init__(s, ty, src): s.ty = ty; s.src = src; s.rx = Rx(src)
class KV:                       # a known value of the lexer library (an action, an included rule)
    __slots__ = ("ty", "k", "a")
    def __init__(s, ty, k, a=None): s.ty = ty; s.k = k; s.a = a

def literal(run, v, what):
    t = v.lit() if isinstance(v, StrV) else None
    if t is None: raise Unsupported(what + " that is not a constant")
    return t
def m_mustcompile(run, fr, ins, st, args, cont):
    cont(st, ReV(E.ret(run, fr, ins), literal(run, args[0], "regular expression")))
def matches(rx, t):
    b, e, xs = strip(rx.tree)
    r = relan(("cat", xs))
    if not b: r = "(re.++ %s %s)" % (ALL, r)
    if not e: r = "(re.++ %s %s)" % (r, ALL)
    return "(str.in_re %s %s)" % (t, r)
def m_matchstring(run, fr, ins, st, args, cont):
    if not isinstance(args[0], ReV): raise Unsupported("regular expression that is not known")
    cont(st, TV(E.ret(run, fr, ins), matches(args[0].rx, run.term(st, args[1]))))
def submatch(run, st, rx, t):
    """Texts of the whole match and of its groups, given that there is a match:
    some way to split the text as the expression demands."""
    got = {}
    def split(x):
        k = x[0]
        if k == "cat": return '(str.++ "" %s)' % " ".join(split(y) for y in x[1]) if x[1] else '""'
        if k == "grp":
            v = run.fresh("String", "group"); got[x[1]] = v
            t2 = split(x[2]); st.pc.append("(= %s %s)" % (v, t2)); return v
        if hasgroup(x):
            if k == "rep" and (x[2], x[3]) == (0, 1):
                v = run.fresh("String", "opt"); h = run.fresh("Bool", "has"); t2 = split(x[1])
                for g in groups(x): st.pc.append('(=> (not %s) (= %s ""))' % (h, got[g]))
                st.pc.append('(= %s (ite %s %s ""))' % (v, h, t2)); return v
            raise Unsupported("group inside a repetition")
        v = run.fresh("String", "part"); st.pc.append("(str.in_re %s %s)" % (v, relan(x))); return v
    b, e, xs = strip(rx.tree)
    m = split(("cat", xs)); whole = run.fresh("String", "match"); st.pc.append("(= %s %s)" % (whole, m))
    pre = '""' if b else run.fresh("String", "before"); post = '""' if e else run.fresh("String", "after")
    st.pc.append("(= %s (str.++ %s %s %s))" % (t, pre, whole, post))
    return [whole] + [got.get(i, '""') for i in range(1, rx.groups + 1)]
def hasgroup(x): return bool(groups(x))
def groups(x):
    if x[0] == "grp": return [x[1]] + groups(x[2])
    if x[0] in ("cat", "alt"): return [g for y in x[1] for g in groups(y)]
    if x[0] == "rep": return groups(x[1])
    return []
def m_submatch(run, fr, ins, st, args, cont):
    if not isinstance(args[0], ReV): raise Unsupported("regular expression that is not known")
    rx = args[0].rx; t = run.term(st, args[1]); ty = E.ret(run, fr, ins); m = matches(rx, t)
    a = st.fork(); a.pc.append(Not(m)); a.trace.append("nomatch")
    cont(a, SlV(ty, None, "0", "0", "true"))
    b = st.fork(); b.pc.append(m); b.trace.append("match")
    gs = submatch(run, b, rx, t)
    arr = ArrV(None, [StrV([("t", g)]) for g in gs])
    cont(b, run.model.slice_of_array(run, b, ty, arr, None))
def m_findstring(run, fr, ins, st, args, cont):
    if not isinstance(args[0], ReV): raise Unsupported("regular expression that is not known")
    rx = args[0].rx; t = run.term(st, args[1]); m = matches(rx, t)
    a = st.fork(); a.pc.append(Not(m)); cont(a, StrV([], E.ret(run, fr, ins)))
    b = st.fork(); b.pc.append(m); cont(b, StrV([("t", submatch(run, b, rx, t)[0])], E.ret(run, fr, ins)))
def m_quotemeta(run, fr, ins, st, args, cont):
    cont(st, StrV([("lit", re.sub(r"([\\.+*?()|\[\]{}^$])", r"\\\1", literal(run, args[0], "QuoteMeta of a text")))], E.ret(run, fr, ins)))
def known(k):
    def m(run, fr, ins, st, args, cont): cont(st, KV(E.ret(run, fr, ins), k, literal(run, args[0], "lexer state") if args else None))
    return m
LX = "github.com/alecthomas/participle/v2/lexer."
def m_trimprefix(run, fr, ins, st, args, cont):
    t, p = run.term(st, args[0]), run.term(st, args[1])
    cont(st, StrV([("t", "(ite (str.prefixof %s %s) (str.substr %s (str.len %s) (- (str.len %s) (str.len %s))) %s)" % (p, t, t, p, t, p, t))], E.ret(run, fr, ins)))
def m_parsefloat(run, fr, ins, st, args, cont):
    s, base = run.term(st, args[0]), run.term(st, args[1])
    V = "V_Float"; run.use_sort(V); run.fun("big_parse", ["String", "Int"], V); run.fun("big_bad", ["String", "Int"], "Bool")
    bad = App("big_bad", s, base); e = run.fresh("Iface", "err"); st.pc.append("(= (= %s nilI) (not %s))" % (e, bad))
    rt = E.ret(run, fr, ins); pty = rt.elems[0]; ety = pty.under.elem
    run.n += 1; oid = run.n; c = run.fresh(V, "num"); pr = run.term(st, args[2])
    if pr == "0" or isnum(pr) and val(pr) >= 53: st.pc.append("(=> (not %s) (= %s (big_parse %s %s)))" % (bad, c, s, base))
    st.objs[oid] = TV(ety, c); st.objty[oid] = ety
    cont(st, TupV([LocP(pty, oid), TV(None, run.fresh("Int", "base")), TV(None, e)]))
def m_setstring(run, fr, ins, st, args, cont):
    p, s = args; t = run.term(st, s)
    if not isinstance(p, LocP) or p.oid in st.pub: raise Unsupported("write to a number that already escaped")
    V = "V_Float"; run.use_sort(V); run.fun("big_parse", ["String", "Int"], V); run.fun("big_bad", ["String", "Int"], "Bool")
    bad = App("big_bad", t, "0"); c = run.fresh(V, "num")
    if E.parses(st, p): st.pc.append("(=> (not %s) (= %s (big_parse %s 0)))" % (bad, c, t))
    run.storeloc(st, p, TV(st.objty[p.oid], c))
    cont(st, TupV([p, TV(None, Not(bad))]))
MODELS = {"regexp.MustCompile": m_mustcompile, "(*regexp.Regexp).MatchString": m_matchstring, "(*regexp.Regexp).FindStringSubmatch": m_submatch, "(*regexp.Regexp).FindString": m_findstring,
          "regexp.QuoteMeta": m_quotemeta, LX + "Include": known("include"), LX + "Push": known("push"), LX + "Pop": known("pop"),
          "math/big.ParseFloat": m_parsefloat, "(*math/big.Float).SetString": m_setstring}

# ---------------------------------------------------------------- package variables
def global_load(M, run, st, p):
    """A variable set once, in its declaration, from constants."""
    if not p.n.startswith(E.ETX + ".") and p.ty is not None and run.sort(p.ty.under.elem if p.ty.under.k == "ptr" else p.ty) == "Iface":      # an error of another package
        g = "glob_" + E.sane(p.n.split("/")[-1]); run.fun(g, [], "Iface"); st.pc.append("(not (= %s nilI))" % g); return TV(p.ty.under.elem if p.ty.under.k == "ptr" else p.ty, g)
    name = p.n; stores = []; addr = []
    for fn in run.mod.funcs.values():
        for b in fn["blocks"] or []:
            for i in b["instrs"]:
                if i["op"] == "DebugRef": continue
                a = i.get("addr")
                if i["op"] == "Store" and isinstance(a, dict) and a.get("k") == "global" and a.get("n") == name: stores.append((fn, b, i)); continue
                if i["op"] == "UnOp" and i["x"].get("k") == "global": continue
                for k, v in i.items():
                    for w in (v if isinstance(v, list) else v.get("args", []) if isinstance(v, dict) and "args" in v else [v]):
                        if isinstance(w, dict) and w.get("k") == "global" and w.get("n") == name: addr.append(fn["name"])
    short_ = name.split(".")[-1]
    if addr: raise Unsupported("package variable %s whose address is taken" % short_)
    if len(stores) != 1 or not X.short(stores[0][0]["name"]).startswith("init"): raise Unsupported("package variable %s that is assigned" % short_)
    fn, b, i = stores[0]
    fr = run.newframe(fn, {}, "init"); st.regs[fr.fid] = {}
    def regs(j):
        out = []
        def walk(v):
            if isinstance(v, dict):
                if v.get("k") == "reg": out.append(v["n"])
                else:
                    for x in v.values(): walk(x)
            elif isinstance(v, list):
                for x in v: walk(x)
        for k, v in j.items():
            if k not in ("r", "t"): walk(v)
        return out
    defs = {j["r"]: (bb, j) for bb in fn["blocks"] for j in bb["instrs"] if "r" in j and j["op"] != "DebugRef"}
    need = set(); todo = regs({"v": i["v"]})
    while todo:
        v = todo.pop()
        if v in need: continue
        if v not in defs or defs[v][0] is not b: raise Unsupported("package variable %s" % short_)
        need.add(v); todo += regs(defs[v][1])
        if defs[v][1]["op"] in ("Alloc", "IndexAddr", "FieldAddr"):     # what is stored there counts
            for j in b["instrs"]:
                if j["op"] == "Store" and v in regs({"a": j["addr"]}): todo += regs(j)
                elif j["op"] in ("IndexAddr", "FieldAddr") and v in regs(j): todo.append(j["r"])
    for j in b["instrs"]:
        if j is i: break
        if j["op"] == "Store":
            rs = regs(j)
            if rs and all(r in need for r in rs) and regs({"a": j["addr"]}): run.i_Store(fr, j, st)
            continue
        if j["op"] == "DebugRef" or j.get("r") not in need: continue
        if j["op"] == "Call":
            out = []; run.call(fr, j, st, lambda s2, v: out.append((s2, v)))
            if len(out) != 1 or out[0][0] is not st: raise Unsupported("package variable %s" % short_)
            st.regs[fr.fid][j["r"]] = out[0][1]
        elif j["op"] in ("Alloc", "IndexAddr", "FieldAddr", "Slice", "MakeInterface", "BinOp", "Convert", "ChangeType", "ChangeInterface", "MakeMap", "UnOp"): st.regs[fr.fid][j["r"]] = getattr(run, "i_" + j["op"])(fr, j, st)
        else: raise Unsupported("package variable %s" % short_)
    return run.operand(fr, st, i["v"])

# ---------------------------------------------------------------- the rules, by execution of lexRules
def closed(mod, sp, fname, model):
    """The value a function without parameters returns, by symbolic execution of its body."""
    got = []
    class P:
        prop = sp.prop; contracts = {}; defs = {}; types = sp.types
    m = model(mod); m.at_exit = lambda run, st, res: got.append((run, st, res))
    run = X.Run(mod, P, fname, m); run.redo = False; run.hint = None; run.run()
    while run.redo: run.redo = False; got.clear(); run.run()
    if len(got) != 1: raise Unsupported("%s does not have one result" % X.short(fname))
    return got[0]
def rules(mod, sp, model):
    """[(state, [(name, pattern, action)])] with Include expanded."""
    if hasattr(sp, "lexrules"): return sp.lexrules
    full = [n for n in mod.funcs if X.short(n) == "lexRules"]
    if not full: raise Unsupported("lexRules not found")
    run, st, res = closed(mod, sp, full[0], model)
    sp.lexrules = decode(run, st, res[0]); return sp.lexrules
def decode(run, st, m):
    if not isinstance(m, MapV): raise Unsupported("the lexer rules are not a literal map")
    raw = {}
    for k, v in st.objs[m.oid].items():
        if v.bid is None: raw[k] = []; continue
        b = st.backs[v.bid]
        if b.conc is None or not isnum(v.ln) or not isnum(v.off): raise Unsupported("lexer rules of unknown number")
        out = []
        for x in b.conc[val(v.off):val(v.off) + val(v.ln)]:
            if isinstance(x, KV) and x.k == "include": out.append(("include", x.a)); continue
            if not isinstance(x, StV): raise Unsupported("a lexer rule that is not a literal")
            names = [f[0] for f in x.ty.under.fields]; f = dict(zip(names, x.f))
            act = f.get("Action")
            act = act.v if isinstance(act, IfV) else act
            out.append((literal(run, f["Name"], "rule name"), literal(run, f["Pattern"], "rule pattern"), (act.k, act.a) if isinstance(act, KV) else None))
        raw[k] = out
    def expand(k, seen=()):
        if k in seen or k not in raw: raise Unsupported("lexer state %s" % k)
        out = []
        for r in raw[k]: out += expand(r[1], seen + (k,)) if r[0] == "include" else [r]
        return out
    return {k: expand(k) for k in raw}
def concrete_map(M, run, st, ty, ins):
    if ty.key != LX + "Rules" and not (ty.under.k == "map" and ty.under.elem.under.k == "slice" and ty.under.elem.under.elem.key == LX + "Rule"): return None
    run.n += 1; st.objs[run.n] = {}; st.objty[run.n] = ty
    return MapV(ty, run.n)
def concrete_update(M, run, st, m, k, v):
    d = dict(st.objs[m.oid]); d[literal(run, k, "lexer state")] = v; st.objs[m.oid] = d

def rulelang(pat):
    """(language, needs a word boundary at its end) of a lexer rule; a boundary at the
    beginning holds wherever the lexer tries a rule (the text before is cut off)
    if what follows is a word character."""
    t = Rx(pat).tree; xs = list(items(t)); wb = False
    while xs and xs[0] in (("bol",), ("wb",)): xs = xs[1:]
    while xs and xs[-1] == ("wb",): wb = True; xs = xs[:-1]
    return relan(("cat", xs)), wb

# ---------------------------------------------------------------- contracts
def fields_of(run, st, p):
    v = run.loadloc(st, p) if isinstance(p, LocP) else p
    if isinstance(v, TV): v = run.model.expand(run, st, v)
    return dict(zip([f[0] for f in v.ty.under.fields], v.f))
class Capture(E.Contract):
    """Capture(values) error on a receiver of its own"""
    def param(s, run, st, ty, n, i):
        if i == 0 and ty.under.k == "ptr":
            ety = ty.under.elem; run.n += 1; oid = run.n
            st.objs[oid] = StV(ety, [s.initial(run, st, f) for f in ety.under.fields]); st.objty[oid] = ety
            return LocP(ty, oid)
        return None
    def initial(s, run, st, f): return run.model.freshv(run, st, f[1], f[0])
    def pre(s, run, st, args, mode):
        v = args[1]; t = run.term(st, run.model.back_load(run, st, st.backs[v.bid], BackP(None, v.bid, v.off)))
        run.tok = t
        return [("a token", Le("1", v.ln))] + s.token(run, st, t)
    def token(s, run, st, t): return []
OCT = '(re.++ (str.to_re "0") (re.+ (re.union (re.range "0" "9") (str.to_re "_"))))'
def octal(t): return '(ite (str.in_re %s %s) (str.++ "0o" (str.substr %s 1 (- (str.len %s) 1))) %s)' % (t, OCT, t, t, t)
class NumberCapture(Capture):
    def post(s, run, st, args, res, mode):
        f = fields_of(run, st, args[0]); src = run.term(st, f["Source"]); tok = run.tok; err = run.term(st, res[0])
        run.use_sort("V_Float"); run.fun("big_parse", ["String", "Int"], "V_Float"); run.fun("big_bad", ["String", "Int"], "Bool")
        out = [("the text is kept, or gets the octal prefix", Eq(src, octal(tok))),
               ("capturing the stored text again would keep it", Eq(octal(src), src)),
               ("an error is reported exactly for a text that is not a number", Eq(Eq(err, "nilI"), "(not (big_bad %s 0))" % src))]
        v = f["Value"]
        if run.model.isptr(v):
            out.append(("a number is stored", Imp(Eq(err, "nilI"), Not(run.model.isnil(run, st, v)))))
            out.append(("the number is the parse of the stored text", Imp(Eq(err, "nilI"), Eq(run.model.view(run, st, v, v.ty.under.elem), "(big_parse %s 0)" % src))))
        else: raise Unsupported("the stored number")
        return out
class NumberText(E.Contract):
    def pre(s, run, st, args, mode):
        f = fields_of(run, st, args[0]) if isinstance(args[0], (TV, StV)) and args[0].ty.under.k == "struct" else None
        if f is None: raise Unsupported("receiver")
        run.src = run.term(st, f["Source"])
        return [("captured", '(not (= %s ""))' % run.src)]
    def post(s, run, st, args, res, mode): return [("formatting prints the stored text", Eq(run.term(st, res[0]), run.src))]
class HeredocCapture(Capture):
    def initial(s, run, st, f): return run.zero(f[1], st)
    def token(s, run, st, t):
        rs = rules(run.mod, run.sp, E.EtxModel); toks = [r for rr in rs.values() for r in rr if r[0] == "Heredoc"]
        if not toks: raise Unsupported("no Heredoc token in the lexer rules")
        out = []
        for pat in sorted({r[1] for r in toks}): out.append("(str.in_re %s %s)" % (t, rulelang(pat)[0]))
        return [("a heredoc opening token", Or(*out))]
    def post(s, run, st, args, res, mode):
        f = fields_of(run, st, args[0]); d = run.term(st, f["Delimiter"]); lt = run.term(st, f["LeadingTabs"])
        return [("the token is recorded exactly", Eq('(str.++ "<<" (ite %s "-" "") %s "\\u{a}")' % (lt, d), run.tok)),
                ("the delimiter word is recorded without the dash", '(not (or (= %s "") (str.prefixof "-" %s)))' % (d, d)),
                ("no error", Eq(run.term(st, res[0]), "nilI"))]
class HeredocText(E.Contract):
    def pre(s, run, st, args, mode):
        f = fields_of(run, st, args[0]); run.d = run.term(st, f["Delimiter"]); run.lt = run.term(st, f["LeadingTabs"])
        return [("captured", '(not (= %s ""))' % run.d)]
    def post(s, run, st, args, res, mode): return [("formatting gives back the token's text", Eq(run.term(st, res[0]), '(str.++ (ite %s "-" "") %s)' % (run.lt, run.d)))]

def pyre(pat):
    for k, v in (("[:alpha:]", "a-zA-Z"), ("[:digit:]", "0-9"), ("[:alnum:]", "a-zA-Z0-9"), ("[:word:]", "a-zA-Z0-9_"), ("[:space:]", "\\s"), ("[:xdigit:]", "0-9a-fA-F")): pat = pat.replace(k, v)
    try: return re.compile(pat)
    except re.error: return None
class LexRules(E.Contract):
    """lexRules: in the order of the rules, each token of the language is the first thing any rule matches at its start"""
    def post(s, run, st, args, res, mode):
        import etx_tokens as T
        rs = decode(run, st, res[0]); out = []
        isw = lambda c: c.isalnum() and ord(c) < 128 or c == "_"
        for state in T.STATES:
            if state not in rs: out.append(("the lexer has a state %s" % state, "false")); continue
            L = [(n,) + rulelang(p) for n, p, a in rs[state]]
            def hit(r, p, w):      # the rule matches the prefix p of the text w
                nxt = w[len(p)] if len(p) < len(w) else " "
                if r[2] and isw(p[-1]) == isw(nxt): return "false"
                return "(str.in_re %s %s)" % (smtstr(p), r[1])
            def first(i, w):
                pre = [w[:k] for k in range(1, len(w) + 1)]
                return And(hit(L[i], w, w), *([Not(hit(L[i], p, w)) for p in pre[:-1]] + [Not(hit(L[j], p, w)) for j in range(i) for p in pre]))
            for w in T.OPERATORS + T.KEYWORDS:
                out.append(("%s: %s is recognised as itself" % (state, w), Or(*[first(i, w) for i in range(len(L))])))
            for i, r in enumerate(L):
                x = run.fresh("String", "text")
                for w in T.OPERATORS:
                    out.append(("%s: the rule that recognises %s recognises nothing else (%s)" % (state, w, r[0]), Imp(And(first(i, w), "(str.in_re %s %s)" % (x, r[1])), Eq(x, smtstr(w)))))
                x = run.fresh("String", "ident")
                for w in T.KEYWORDS:
                    out.append(("%s: the keyword %s is tried before identifiers (%s)" % (state, w, r[0]), Imp(And(first(i, w), "(str.in_re %s %s)" % (x, T.IDENT), Not(Or(*[Eq(x, smtstr(k)) for k in T.KEYWORDS]))), Not("(str.in_re %s %s)" % (x, r[1])))))
            for name, sample, lang in T.COMMENTS:
                wit = [i for i, (n, p, a) in enumerate(rs[state]) if (lambda q: q and q.match(sample))(pyre(p))]
                if not wit: out.append(("%s: %s is recognised" % (state, name), "false")); continue
                i = wit[0]; x = run.fresh("String", "comment"); inc = "(str.in_re %s %s)" % (x, lang)
                out.append(("%s: %s is recognised" % (state, name), Imp(inc, "(str.in_re %s %s)" % (x, L[i][1]))))
                for j in range(i): out.append(("%s: %s is not cut short by the rule %s" % (state, name, L[j][0]), Imp(inc, Not("(str.in_re %s (re.++ (re.diff %s (str.to_re \"\")) %s))" % (x, L[j][1], ALL)))))
                div = [k for k, r in enumerate(L) if pyre(rs[state][k][1]) and pyre(rs[state][k][1]).fullmatch("/")]
                out.append(("%s: %s is tried before division" % (state, name), "true" if div and all(i < k for k in div) else "false"))
        return out

def contracts(sp):
    p = sp.prop; byshort = {X.short(n): n for n in sp.mod.funcs if not sp.mod.funcs[n].get("synth")}
    def add(name, cls): sp.contracts[name] = cls(name, "capture", None, (p,))
    if p == "E08": add("ValueNumber.Capture", NumberCapture); add("ValueNumber.FormattedString", NumberText)
    if p == "E09": add("HeredocDelimiter.Capture", HeredocCapture); add("HeredocDelimiter.FormattedString", HeredocText)
    if p == "E12": add("lexRules", LexRules)
