"""Loads the SSA export (see export/main.go) and resolves Go types."""
import json

class Ty:
    """A Go type. Structural; `key` is canonical and used to name SMT symbols."""
    __slots__ = ("k", "key", "name", "elem", "mkey", "fields", "under_", "targs", "pkg", "methods", "elems", "n", "mod", "tid", "env")
    def __init__(s, k, key):
        s.k = k; s.key = key; s.name = None; s.elem = None; s.mkey = None; s.fields = None
        s.under_ = None; s.targs = []; s.pkg = None; s.methods = None; s.elems = None; s.n = None; s.mod = None; s.tid = None; s.env = None
    def __repr__(s): return s.key
    def __eq__(s, o): return isinstance(o, Ty) and s.key == o.key
    def __hash__(s): return hash(s.key)
    @property
    def under(s):
        t = s
        while t.k == "named":
            if t.under_ is None:
                t.under_ = t.mod.ty(t.mod.types[t.tid]["under"], t.env)
            t = t.under_
        return t

class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.funcs = {}
        self.byfull = {}
        for f in d["functions"]:
            self.funcs.setdefault(f["name"], f)
            self.byfull[f["full"]] = f
        self.globals = d["globals"]
        self._cache = {}

    def ty(self, tid, env=None):
        env = env or {}
        ck = (tid, tuple(sorted((k, v.key) for k, v in env.items())))
        if ck in self._cache: return self._cache[ck]
        r = self._ty(tid, env)
        self._cache[ck] = r
        return r

    def _ty(self, tid, env):
        if tid == "nil":
            t = Ty("nil", "nil"); return t
        m = self.types[tid]; k = m["k"]
        if k == "tparam":
            if m["name"] in env: return env[m["name"]]
            t = Ty("tparam", m["name"]); t.name = m["name"]; return t
        if k == "basic":
            n = m["name"]
            if n == "byte": n = "uint8"
            if n == "rune": n = "int32"
            t = Ty("basic", n); t.name = n; return t
        if k in ("ptr", "slice"):
            e = self.ty(m["elem"], env) if not self._recursive(m["elem"]) else self.ty(m["elem"], env)
            t = Ty(k, ("*" if k == "ptr" else "[]") + e.key); t.elem = e; return t
        if k == "array":
            e = self.ty(m["elem"], env); t = Ty("array", "[%d]%s" % (m["len"], e.key)); t.elem = e; t.n = m["len"]; return t
        if k == "map":
            a = self.ty(m["key"], env); b = self.ty(m["elem"], env)
            t = Ty("map", "map[%s]%s" % (a.key, b.key)); t.mkey = a; t.elem = b; return t
        if k == "chan":
            e = self.ty(m["elem"], env); t = Ty("chan", "chan " + e.key); t.elem = e; return t
        if k == "named":
            targs = [self.ty(x, env) for x in m["targs"]]
            if not m["targs"] and m["tparams"]:
                targs = [self.ty(x, env) for x in m["tparams"]]
            key = m["origin"].split("[")[0]
            if targs: key += "[" + ",".join(x.key for x in targs) + "]"
            t = Ty("named", key); t.name = m["name"]; t.targs = targs; t.pkg = m.get("pkg"); t.tid = tid; t.env = env; t.mod = self
            t.methods = m.get("methods")
            return t
        if k == "struct":
            fs = [(f["name"], self.ty(f["type"], env), f["emb"], f["tag"]) for f in m["fields"]]
            t = Ty("struct", "struct{" + ";".join("%s %s" % (a, b.key) for a, b, _, _ in fs) + "}"); t.fields = fs; return t
        if k == "iface":
            t = Ty("iface", "interface{" + ",".join(m["methods"]) + "}"); t.methods = m["methods"]; return t
        if k == "tuple":
            es = [self.ty(x, env) for x in m["elems"]]
            t = Ty("tuple", "(" + ",".join(e.key for e in es) + ")"); t.elems = es; return t
        if k == "func":
            return Ty("func", "func:" + tid)
        return Ty("other", tid)
    def _recursive(self, tid): return False

    def methodset(self, key):
        """method name -> full function name, for a concrete type key."""
        m = self.types.get(key)
        return m.get("methods") if m else None

def dominators(f):
    bs = f["blocks"]; n = len(bs)
    alln = set(range(n)); dom = {i: set(alln) for i in range(n)}; dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in bs[1:]:
            ps = [dom[p] for p in b["pred"]]
            nd = (set.intersection(*ps) if ps else set()) | {b["i"]}
            if nd != dom[b["i"]]: dom[b["i"]] = nd; ch = True
    return dom

def loops(f):
    """header -> set of body blocks (natural loops)."""
    if "_loops" in f: return f["_loops"]
    dom = dominators(f); L = {}
    for b in f["blocks"]:
        for s in b["succ"]:
            if s in dom[b["i"]]:
                body = L.setdefault(s, {s}); st = [b["i"]]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(f["blocks"][x]["pred"])
    f["_loops"] = L
    return L
