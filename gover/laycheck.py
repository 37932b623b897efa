"""Evaluates the layouts of contracts/etx_layout.py on formatted trees, to find
a node whose text is not the one its contract prescribes."""
import json
import etx_layout

class CFld:
    def __init__(s, x): s.x = x
    @property
    def present(s):
        x = s.x
        if x is None: return False
        if "list" in x: return len(x["list"]) > 0
        if "s" in x: return x["s"] != ""
        if "b" in x: return x["b"]
        return True
    @property
    def given(s): return not s.x["nil"] if "list" in (s.x or {}) else s.present
    @property
    def node(s): return CNode(s.x)
    @property
    def fmt(s): return s.x.get("fmt", "") if s.x else ""
    @property
    def t(s):
        if s.x is None: return ""
        return s.x.get("s", "") if "b" not in s.x else s.x["b"]
    @property
    def isstring(s): return bool(s.x) and "s" in s.x
    @property
    def items(s): return [CFld(i) for i in s.x["list"]] if s.x else []
class CNode:
    def __init__(s, x): s.__dict__["x"] = x
    def __getattr__(s, n): return CFld(s.x["fields"][n]) if s.x else CFld(None)

class CLay:
    def cat(s, *xs): return "".join(xs)
    def lit(s, x): return x
    def ite(s, c, a, b): return a if c else b
    def case(s, *cs):
        for c, t in cs[:-1]:
            if c: return t
        return cs[-1]
    def opt(s, c, t): return t if c else ""
    def ind(s, t): return "\n".join("\t" + l if l else l for l in t.split("\n"))
    def trim(s, t, suf): return t[:-len(suf)] if t.endswith(suf) else t
    def rep(s, t, n): return t * n
    def longest(s, fld, label): return max([0] + [len(getattr(i.node, label).t.encode("utf-8", "surrogateescape")) for i in fld.items])
    def minus(s, a, b): return a - b
    def either(s, *cs): return any(cs)
    def many(s, fld): return len(fld.items) > 1
    def length(s, t): return len(t.encode("utf-8", "surrogateescape"))
    def join(s, fld, sep, item, key, extra=()): return sep.join(item(i, *extra) for i in fld.items)

def check(path):
    best = None
    for case in json.load(open(path)):
        def walk(x):
            nonlocal best
            lay = etx_layout.LAYOUT.get(x["type"])
            if lay and "fmt" in x:
                want = lay(CLay(), CNode(x))
                if want != x["fmt"] and (best is None or len(x["fmt"]) < len(best[1])): best = (x["type"], x["fmt"], want, case["dump"])
            for f in x["fields"].values():
                if f and "type" in f: walk(f)
                if f and "list" in f:
                    for i in f["list"]:
                        if "type" in i: walk(i)
        walk(case["tree"])
    if best is None: return None
    return "failing input: a tree with a %s that is formatted as\n%s\nand not as\n%s\nthe tree:\n%s\n" % (best[0], json.dumps(best[1]), json.dumps(best[2]), best[3])
if __name__ == "__main__":
    import sys; print(check(sys.argv[1]))
