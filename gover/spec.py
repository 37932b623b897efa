"""The contract language: a small Go-like expression language, and contract files.

File format (one directive per line, a line ending in \\ continues):
  define NAME(a, b) = EXPR           macro, expanded in the current state
  func NAME(params) (results)        starts the contract of a function
    tags D01 D02 ...                 properties that rest on this function
    requires [label] EXPR
    ensures  [label|TAG TAG] EXPR
    modifies r where EXPR            which pre-existing objects may be written
    allocates KIND ...               heap components in which new objects appear
    candidate X: kind, ... :: EXPR   loop invariant template (kept if inductive)
    use LEMMA(args)                  instantiates a proved lemma at exit
Expressions: forall x K, y K :: e ; exists ... ; ==> <==> || && ! == != < <= > >= + - ;
  x.f, m[k], f(args), old(e).
"""
import re

TOK = re.compile(r"\s*(?:(<==>|==>|::|\|\||&&|==|!=|<=|>=|[-+!<>()\[\]{},.:;?*])|([A-Za-z_$][A-Za-z_0-9$]*)|(\d+)|\"((?:[^\"\\]|\\.)*)\")")

def lex(s):
    out = []; i = 0; s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise SyntaxError("spec: cannot lex %r" % s[i:i+30])
        if m.group(1): out.append(("op", m.group(1)))
        elif m.group(2): out.append(("id", m.group(2)))
        elif m.group(3): out.append(("num", m.group(3)))
        else: out.append(("str", m.group(4).encode().decode("unicode_escape")))
        i = m.end()
    return out

class P:
    def __init__(s, text): s.t = lex(text); s.i = 0; s.text = text
    def peek(s): return s.t[s.i] if s.i < len(s.t) else ("eof", "")
    def next(s): x = s.peek(); s.i += 1; return x
    def eat(s, v):
        if s.peek()[1] == v and s.peek()[0] in ("op", "id"): s.i += 1; return True
        return False
    def need(s, v):
        if not s.eat(v): raise SyntaxError("spec: expected %r at token %d of %r, got %r" % (v, s.i, s.text, s.peek()))
    def expr(s):
        k, v = s.peek()
        if k == "id" and v in ("forall", "exists"):
            s.next(); bs = []
            while True:
                n = s.next()[1]; t = s.next()[1]; bs.append((n, t))
                if not s.eat(","): break
            s.need("::"); pats = []
            while s.eat("{"):
                ps = [s.expr()]
                while s.eat(","): ps.append(s.expr())
                s.need("}"); pats.append(ps)
            return (v, bs, pats, s.expr())
        return s.iff()
    def iff(s):
        a = s.imp()
        while s.eat("<==>"): a = ("iff", a, s.imp())
        return a
    def imp(s):
        a = s.or_()
        if s.eat("==>"):
            k, v = s.peek()
            b = s.expr() if (k == "id" and v in ("forall", "exists")) else s.imp()
            return ("imp", a, b)
        return a
    def or_(s):
        a = s.and_()
        while s.eat("||"): a = ("or", a, s.and_())
        return a
    def and_(s):
        a = s.cmp()
        while s.eat("&&"):
            k, v = s.peek()
            b = s.expr() if (k == "id" and v in ("forall", "exists")) else s.cmp()
            a = ("and", a, b)
        return a
    def cmp(s):
        a = s.add()
        while s.peek()[1] in ("==", "!=", "<", "<=", ">", ">=") and s.peek()[0] == "op":
            o = s.next()[1]; a = ("cmp", o, a, s.add())
        return a
    def add(s):
        a = s.un()
        while s.peek() in (("op", "+"), ("op", "-")):
            o = s.next()[1]; a = ("arith", o, a, s.un())
        return a
    def un(s):
        if s.eat("!"): return ("not", s.un())
        if s.eat("-"): return ("arith", "-", ("num", "0"), s.un())
        return s.post()
    def post(s):
        k, v = s.next()
        if k == "num": a = ("num", v)
        elif k == "str": a = ("str", v)
        elif k == "id":
            if s.eat("("):
                args = []
                if not s.eat(")"):
                    args.append(s.expr())
                    while s.eat(","): args.append(s.expr())
                    s.need(")")
                a = ("call", v, args)
            else: a = ("var", v)
        elif (k, v) == ("op", "("):
            a = s.expr(); s.need(")")
        else: raise SyntaxError("spec: unexpected %r in %r" % (v, s.text))
        while True:
            if s.eat("."): a = ("field", a, s.next()[1])
            elif s.eat("["): i = s.expr(); s.need("]"); a = ("index", a, i)
            else: return a

def parse(text):
    p = P(text); e = p.expr()
    if p.peek()[0] != "eof": raise SyntaxError("spec: trailing input in %r at %r" % (text, p.peek()))
    return e

class Contract:
    def __init__(s, name, params, results):
        s.name = name; s.params = params; s.results = results
        s.requires = []; s.ensures = []; s.modifies = []; s.allocates = []; s.cands = []; s.uses = []
        s.touches = []; s.delivers = []; s.variants = []; s.decreases = None; s.tags = set(); s.opts = set(); s.line = 0

class SpecFile:
    """With prop, the slice of the contracts that this property rests on:
    clauses tagged with other properties only are neither assumed nor proved."""
    def __init__(s, path, prop=None):
        s.path = path; s.defs = {}; s.contracts = {}; s.prop = prop; s.total = prop == "D11"
        s.load(open(path).read())
        for c in s.contracts.values():
            c.requires = [x for x in c.requires if s.relevant(x[1])]
            c.ensures = [x for x in c.ensures if s.relevant(x[1])]
            c.delivers = [x for x in c.delivers if s.relevant(x[1])]
    def relevant(s, tags): return s.prop is None or not tags or s.prop in tags
    def load(s, text):
        lines = []; buf = ""
        for n, l in enumerate(text.split("\n"), 1):
            l = re.sub(r"(^|\s)#.*$", "", l).rstrip()
            if l.endswith("\\"): buf += l[:-1] + " "; continue
            buf += l
            if buf.strip(): lines.append((n, buf.strip()))
            buf = ""
        cur = None
        for n, l in lines:
            kw, _, rest = l.partition(" "); rest = rest.strip()
            try:
                if kw == "define":
                    m = re.match(r"(\w+)\(([^)]*)\)\s*=\s*(.*)$", rest)
                    ps = [x.strip() for x in m.group(2).split(",") if x.strip()]
                    s.defs[m.group(1)] = (ps, s.clauses(m.group(3)))
                elif kw == "func":
                    m = re.match(r"([\w.]+)\(([^)]*)\)\s*(?:\(([^)]*)\))?$", rest)
                    cur = Contract(m.group(1), [x.strip() for x in m.group(2).split(",") if x.strip()],
                                   [x.strip() for x in (m.group(3) or "").split(",") if x.strip()])
                    cur.line = n
                    s.contracts[cur.name] = cur
                elif kw in ("requires", "ensures"):
                    lab, tags, e = "", [], rest
                    m = re.match(r"\[([^\]]*)\]\s*(.*)$", rest)
                    if m:
                        a = m.group(1).split("|"); lab = a[0].strip(); tags = a[1].split() if len(a) > 1 else []
                        e = m.group(2)
                    (cur.requires if kw == "requires" else cur.ensures).append((lab or "line%d" % n, tags, parse(e)))
                elif kw == "modifies":
                    if rest != "nothing":
                        m = re.match(r"(\w+)\s+where\s+(.*)$", rest); cur.modifies.append((m.group(1), parse(m.group(2))))
                elif kw == "allocates": cur.allocates += rest.split()
                elif kw == "touches": cur.touches += rest.split()
                elif kw == "delivers":
                    lab, tags, e = "", [], rest
                    m = re.match(r"\[([^\]]*)\]\s*(.*)$", rest)
                    if m:
                        a = m.group(1).split("|"); lab = a[0].strip(); tags = a[1].split() if len(a) > 1 else []
                        e = m.group(2)
                    cur.delivers.append((lab, tags, parse(e)))
                elif kw == "candidate":
                    h, _, e = rest.partition("::")
                    bs = [tuple(y.strip() for y in x.split(":")) for x in h.split(",") if x.strip()]
                    cur.cands.append((bs, parse(e), n))
                elif kw == "variant":
                    h, _, e = rest.partition("::")
                    bs = [tuple(y.strip() for y in x.split(":")) for x in h.split(",") if x.strip()]
                    e, *us = e.split(" using ")
                    cur.variants.append((bs, parse(e), [parse(u) for u in us], n))
                elif kw == "decreases": cur.decreases = parse(rest)
                elif kw == "use": cur.uses.append(parse(rest))
                elif kw == "tags": cur.tags |= set(rest.split())
                elif kw == "opt": cur.opts |= set(rest.split())
                else: raise SyntaxError("unknown directive " + kw)
            except Exception as ex:
                raise SyntaxError("%s:%d: %s: %r" % (s.path, n, ex, l))
    def clauses(s, text):
        """A macro body: either an expression, or `{ label: e; label: e }`."""
        text = text.strip()
        if text.startswith("{") and text.endswith("}"):
            out = []
            for part in text[1:-1].split(";"):
                if not part.strip(): continue
                m = re.match(r"\s*(\w+)\s*(?:\|([\w ]*))?:(?!:)\s*(.*)$", part, re.S)
                tags = (m.group(2) or "").split()
                if s.prop is None or not tags or s.prop in tags: out.append((m.group(1), parse(m.group(3))))
            return out
        return parse(text)
