"""SMT term construction with light simplification, and the solver driver."""
import subprocess, hashlib, os, re, time, tempfile, threading, queue
from concurrent.futures import ThreadPoolExecutor

def And(*xs):
    o = []
    for x in xs:
        if x == "true": continue
        if x == "false": return "false"
        o.append(x)
    if not o: return "true"
    return o[0] if len(o) == 1 else "(and %s)" % " ".join(o)
def Or(*xs):
    o = []
    for x in xs:
        if x == "false": continue
        if x == "true": return "true"
        o.append(x)
    if not o: return "false"
    return o[0] if len(o) == 1 else "(or %s)" % " ".join(o)
def Not(x):
    if x == "true": return "false"
    if x == "false": return "true"
    if x.startswith("(not ") : return x[5:-1]
    return "(not %s)" % x
def Imp(a, b):
    if a == "true": return b
    if a == "false" or b == "true": return "true"
    return "(=> %s %s)" % (a, b)
def Ite(c, a, b):
    if c == "true": return a
    if c == "false": return b
    if a == b: return a
    return "(ite %s %s %s)" % (c, a, b)
def Eq(a, b):
    if a == b: return "true"
    if isnum(a) and isnum(b): return "true" if a == b else "false"
    if a in ("true",): return b
    if b in ("true",): return a
    if a == "false": return Not(b)
    if b == "false": return Not(a)
    if isconst(a) and isconst(b): return "false"
    return "(= %s %s)" % (a, b)
CONSTS = set()          # pairwise distinct constants (e.g. error values)
def isconst(t): return t in CONSTS
def isnum(t): return re.match(r"^(\d+|\(- \d+\))$", t) is not None
def num(n): return str(n) if n >= 0 else "(- %d)" % -n
def val(t): return int(t) if t[0] != "(" else -int(t[3:-1])
def Add(a, b):
    if isnum(a) and isnum(b): return num(val(a) + val(b))
    if a == "0": return b
    if b == "0": return a
    m = re.match(r"^\(\+ (.*) (\d+)\)$", a)
    if m and isnum(b):
        return Add(m.group(1), num(int(m.group(2)) + val(b))) if bal(m.group(1)) else "(+ %s %s)" % (a, b)
    if isnum(b) and val(b) < 0: return "(- %s %d)" % (a, -val(b))
    return "(+ %s %s)" % (a, b)
def bal(s):
    d = 0
    for c in s:
        if c == "(": d += 1
        elif c == ")":
            d -= 1
            if d < 0: return False
    return d == 0
def Sub(a, b):
    if isnum(a) and isnum(b): return num(val(a) - val(b))
    if b == "0": return a
    if a == b: return "0"
    return "(- %s %s)" % (a, b)
def Le(a, b):
    if isnum(a) and isnum(b): return "true" if val(a) <= val(b) else "false"
    if a == b: return "true"
    return "(<= %s %s)" % (a, b)
def Lt(a, b):
    if isnum(a) and isnum(b): return "true" if val(a) < val(b) else "false"
    if a == b: return "false"
    return "(< %s %s)" % (a, b)
def Sel(a, i): return "(select %s %s)" % (a, i)
def Sto(a, i, v): return "(store %s %s %s)" % (a, i, v)
def App(f, *xs): return "(%s %s)" % (f, " ".join(xs)) if xs else f
def Forall(bs, body, pats=()):
    if body == "true": return "true"
    p = " ".join(":pattern (%s)" % " ".join(x) for x in pats)
    b = " ".join("(%s %s)" % x for x in bs)
    return "(forall (%s) %s)" % (b, "(! %s %s)" % (body, p) if p else body)
def Exists(bs, body): return "(exists (%s) %s)" % (" ".join("(%s %s)" % x for x in bs), body)
def smtstr(s):
    o = []
    for c in s.encode("utf-8", "surrogateescape"):
        b = chr(c)
        if 32 <= c < 127 and b not in '"\\': o.append(b)
        elif b == '"': o.append('""')
        else: o.append("\\u{%x}" % c)
    return '"' + "".join(o) + '"'

def conjuncts(t):
    """Splits a top-level (and ...)."""
    if not t.startswith("(and "): return [t]
    out = []
    for x in split_args(t[5:-1]): out += conjuncts(x)
    return out
def split_args(s):
    out = []; d = 0; cur = ""; i = 0; q = False
    while i < len(s):
        c = s[i]
        if q:
            cur += c
            if c == '"': q = False
        elif c == '"': q = True; cur += c
        elif c == "|":
            j = s.index("|", i + 1); cur += s[i:j + 1]; i = j
        elif c == " " and d == 0:
            if cur: out.append(cur)
            cur = ""
        else:
            if c == "(": d += 1
            elif c == ")": d -= 1
            cur += c
        i += 1
    if cur: out.append(cur)
    return out

SOLVERS = [
    ("z3-5.3.2", ["z3-new", "-in", "-smt2"]),
    ("cvc5-1.1.2", ["cvc5", "--lang=smt2", "--strings-exp", "--incremental"]),
    ("z3-4.8.12", ["z3", "-in", "-smt2"]),
]

class Stats:
    def __init__(s):
        s.lock = threading.Lock(); s.time = 0.0; s.by = {}; s.queries = 0
    def add(s, name, t, ok):
        with s.lock:
            s.time += t; s.queries += 1
            if ok: s.by[name] = s.by.get(name, 0) + 1

def run_solver(idx, script, timeout):
    name, cmd = SOLVERS[idx]
    t0 = time.time()
    if "z3" in name: pre = "(set-option :timeout %d)\n" % int(timeout * 1000); c = cmd
    else: pre = "(set-logic ALL)\n"; c = cmd + ["--tlimit-per=%d" % int(timeout * 1000)]
    try:
        r = subprocess.run(c, input=pre + script, capture_output=True, text=True, timeout=timeout * 3 + 5)
        out = r.stdout
    except subprocess.TimeoutExpired as e:
        out = "timeout"
    except OSError as e:
        out = "error: %s" % e
    ans = "unknown"
    for l in out.split("\n"):
        l = l.strip()
        if l in ("sat", "unsat", "unknown"): ans = l; break
        if l.startswith("(error"): ans = "error"; break
    return ans, out, time.time() - t0
