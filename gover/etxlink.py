"""E04: parent links. A node z (an interface value) has a place nodeof(z) that holds its links and
children kidsA(z)[0..kidn(z)); sub(n, z) says z is n or below it, subr(n, r) that r is the place of such a z.
tree(n): below n, different nodes have different places. Parent is a state component."""
from smt import *
import exec as X
from exec import *
import etxmodel as E
PS = "(Array Ref Iface)"; KA = "(Array Int Iface)"
def kid(n, i): return "(select (kidsA %s) %s)" % (n, i)
def decls(run):
    f = run.fun
    f("nodeof", ["Iface"], "Ref"); f("kidsA", ["Iface"], KA); f("kidn", ["Iface"], "Int"); f("sub", ["Iface", "Iface"], "Bool"); f("subr", ["Iface", "Ref"], "Bool")
    f("tree", ["Iface"], "Bool"); f("idx", ["Iface", "Iface"], "Int"); f("wit", ["Iface", "Ref"], "Iface"); f("unf", ["Iface"], "Bool")
    k, kj = kid("n", "i"), kid("n", "j"); ri = "(<= 0 i) (< i (kidn n))"; rj = "(<= 0 j) (< j (kidn n))"
    A = run.axiom
    A("tree_1", "(forall ((n Iface)) (! (=> (tree n) (and (not (= n nilI)) (not (= (nodeof n) nil)) (>= (kidn n) 0))) :pattern ((tree n))))")
    A("tree_2", "(forall ((n Iface) (i Int)) (! (=> (and (tree n) %s) (tree %s)) :pattern ((tree n) %s)))" % (ri, k, k))
    A("tree_3", "(forall ((n Iface) (i Int) (z Iface)) (! (=> (and (tree n) %s (sub %s z)) (not (= (nodeof z) (nodeof n)))) :pattern ((tree n) (sub %s z))))" % (ri, k, k))
    A("tree_4", "(forall ((n Iface) (i Int) (j Int) (z Iface) (w Iface)) (! (=> (and (tree n) %s %s (not (= i j)) (sub %s z) (sub %s w)) (not (= (nodeof z) (nodeof w)))) :pattern ((tree n) (sub %s z) (sub %s w))))" % (ri, rj, k, kj, k, kj))
    A("sub_1", "(forall ((n Iface)) (! (sub n n) :pattern ((nodeof n))))")
    A("sub_2", "(forall ((n Iface) (i Int) (z Iface)) (! (=> (and %s (sub %s z)) (sub n z)) :pattern ((sub %s z))))" % (ri, k, k))
    A("sub_3", "(forall ((n Iface) (z Iface)) (! (=> (sub n z) (or (= z n) (and (<= 0 (idx n z)) (< (idx n z) (kidn n)) (sub %s z)))) :pattern ((unf n) (sub n z))))" % kid("n", "(idx n z)"))
    A("sub_4", "(forall ((n Iface) (z Iface) (j Int)) (! (=> (and (sub n z) (<= 0 j) (< j (kidn z))) (sub n %s)) :pattern ((sub n z) %s)))" % (kid("z", "j"), kid("z", "j")))
    A("subr_1", "(forall ((n Iface) (z Iface)) (! (=> (sub n z) (subr n (nodeof z))) :pattern ((sub n z))))")
    A("subr_2", "(forall ((n Iface) (r Ref)) (! (=> (subr n r) (and (sub n (wit n r)) (= (nodeof (wit n r)) r))) :pattern ((subr n r))))")
def parents(run, st): return run.ensure_comp(st, "Parent", PS)
def place(M, run, st, p):
    """The place whose Parent field p points at, or None."""
    if isinstance(p, HpP) and p.path:
        ty = p.sty
        for i in p.path[:-1]: ty = ty.under.fields[i][1]
        if M.types.is_astnode(ty) and ty.under.fields[p.path[-1]][0] == "Parent":
            return M.hpp_term(run, st, HpP(p.ty, p.ref, p.sty, p.path[:-1])) if len(p.path) > 1 else p.ref
    return None
def heap_store(M, run, fr, st, p, v, ins):
    if run.sp.prop != "E04": return False
    r = place(M, run, st, p)
    if r is None: return False
    decls(run); run.setcomp(st, "Parent", "(store %s %s %s)" % (parents(run, st), r, run.term(st, v)), r) if parents(run, st) else None
    return True
def heap_load(M, run, st, p):
    if run.sp.prop != "E04": return None
    r = place(M, run, st, p)
    if r is not None: decls(run); return TV(p.ty.under.elem if p.ty is not None and p.ty.under.k == "ptr" else None, "(select %s %s)" % (parents(run, st), r))
    ty = p.sty
    for i in p.path: ty = ty.under.fields[i][1]
    if M.types.is_astnode(ty): raise Unsupported("a whole node header is read")
    return None
def known(M, run, st, recv):
    """The node behind a receiver, and what is known of its place."""
    decls(run)
    if isinstance(recv, IfV): z = run.term(st, recv)
    elif recv.ty is not None and recv.ty.under.k == "ptr": z = M.box(run, recv.ty, recv.t)
    else: z = recv.t
    return z
def kids(M, run, st, z, ty):
    bid = run.newback(st, "(kidsA %s)" % z, None, False, "Iface", ty.under.elem)
    st.pc.append("(>= (kidn %s) 0)" % z)
    return SlV(ty, bid, "0", "(kidn %s)" % z, run.fresh("Bool", "isnil"))
def invoke(M, run, fr, ins, st, recv, name, args, cont):
    if run.sp.prop != "E04" or name not in ("Node", "Children"): raise Unsupported("interface method call " + name)
    z = known(M, run, st, recv); run.ob(st, "method call on a nil interface", Not(Eq(z, "nilI")), fr, ins, run.tags_safety())
    run.assumes.add("the Node and Children methods are the interface's: Node is verified for every node type, Children writes nothing (E07)")
    rt = E.ret(run, fr, ins)
    if name == "Node": return cont(st, TV(rt, "(nodeof %s)" % z))
    return cont(st, kids(M, run, st, z, rt))

class NodeMethod(E.Contract):
    """Node() returns the place of its receiver."""
    def pre(s, run, st, args, mode):
        decls(run); return [("receiver", Not(run.model.isnil(run, st, args[0])))]
    def place(s, run, st, a):
        M = run.model; T = a.ty.under.elem
        if M.types.is_astnode(T): return run.term(st, a)
        for i, f in enumerate(T.under.fields):
            if M.types.is_astnode(f[1]): return M.hpp_term(run, st, HpP(None, run.term(st, a), T, (i,)))
        raise Unsupported("a node type without a header")
    def post(s, run, st, args, res, mode):
        out = [("the result is the node's own header", Eq(run.term(st, res[0]), s.place(run, st, args[0])))]
        if mode == "prove": out.append(("changes no link", Eq(parents(run, st), run.model_comps["Parent"][1])))
        return out
class Kids(E.Contract):
    """Children(), called directly"""
    def apply(s, run, fr, ins, st, fn, env, args, cont):
        M = run.model; run.calls.add(s.name); a = args[0]
        run.oblige(st, "precondition receiver of %s" % s.name, Not(M.isnil(run, st, a)), (), "pre", pos=ins.get("pos", ""))
        z = M.box(run, a.ty, run.term(st, a)); decls(run)
        r = kids(M, run, st, z, run.mod.ty(fn["results"], env).elems[0])
        for lab, g in M.kids_goals(run, st, s.T, a, r): st.pc.append(g)
        run.assumes.add("Children lists the sub-nodes (E03)")
        cont(st, run.pack([r]))
def unlink(run, st): pass
class Links(E.Contract):
    def links(s, run, st, root, top, strict):
        """The children of every node of root's subtree (but root itself if strict) have it as parent; root's have top."""
        p = parents(run, st); run.n += 1; q, j, k = "z?%d" % run.n, "j?%d" % run.n, "k?%d" % run.n
        z = "(forall ((%s Iface) (%s Int)) (! (=> (and (sub %s %s) (<= 0 %s) (< %s (kidn %s))%s) (= (select %s (nodeof %s)) %s)) :pattern ((sub %s %s) %s)))" % (q, j, root, q, j, j, q, " (not (= %s %s))" % (q, root) if strict else "", p, kid(q, j), q, root, q, kid(q, j))
        out = [("every node below has the node that lists it as its parent", z)]
        if strict: out.append(("the top-level nodes have no parent", "(forall ((%s Int)) (! (=> (and (<= 0 %s) (< %s (kidn %s))) (= (select %s (nodeof %s)) nilI)) :pattern (%s)))" % (k, k, k, root, p, kid(root, k), kid(root, k))))
        else: out.append(("the node has the parent it was given", "(= (select %s (nodeof %s)) %s)" % (p, root, top)))
        return out
    def framed(s, run, root, p, p0):
        run.n += 1; q = "r?%d" % run.n
        return ("no other link is changed", "(forall ((%s Ref)) (! (=> (not (subr %s %s)) (= (select %s %s) (select %s %s))) :pattern ((select %s %s))))" % (q, root, q, p, q, p0, q, p, q))
    def pre(s, run, st, args, mode):
        decls(run); root = s.root(run, st, args); out = []
        if mode == "assume": run.linkroot = root; run.linktop = s.top(run, st, args); st.pc.append("(unf %s)" % root)
        return [("the nodes form a tree", "(tree %s)" % root)]
    def apply(s, run, fr, ins, st, fn, env, args, cont):
        M = run.model; run.calls.add(s.name)
        for lab, g in s.pre(run, st, args, "prove"):
            run.oblige(st, "precondition %s of %s" % (lab, s.name), g, (), "pre", pos=ins.get("pos", "")); st.pc.append(g)
        p0 = parents(run, st); run.havoc_comp(st, "Parent", None); st.writes.append(("Parent", None))
        root = s.root(run, st, args)
        for lab, g in s.links(run, st, root, s.top(run, st, args), s.strict) + [s.framed(run, root, parents(run, st), p0)]: st.pc.append(g)
        cont(st, run.pack([]))
    def post(s, run, st, args, res, mode):
        root = run.linkroot
        return s.links(run, st, root, run.linktop, s.strict) + [s.framed(run, root, parents(run, st), run.model_comps["Parent"][1])]
class Update(Links):
    """updateParentRefs(parent, node)"""
    strict = False; at = (0, 1)
    def top(s, run, st, args): return run.term(st, args[s.at[0]])
    def root(s, run, st, args): return run.term(st, args[s.at[1]])
class Refresh(Links):
    """(*AST).UpdateParentRefs()"""
    strict = True
    def top(s, run, st, args): return "nilI"
    def root(s, run, st, args): return run.model.box(run, args[0].ty, run.term(st, args[0]))
    def pre(s, run, st, args, mode):
        M = run.model; out = Links.pre(s, run, st, args, mode)
        if mode == "assume":
            st.pc.append(Not(M.isnil(run, st, args[0]))); r = kids(M, run, st, run.linkroot, node_slice(run))
            for lab, g in M.kids_goals(run, st, s.T, args[0], r): st.pc.append(g)
        return [("receiver", Not(M.isnil(run, st, args[0])))] + out
def node_slice(run):
    t = E.load.Ty("slice", "[]" + E.ETX + ".Node"); t.elem = run.mod.ty(E.ETX + ".Node"); return t
def cands(M, run, fr, st, rec):
    if run.sp.prop != "E04" or not isinstance(run.c, Links): return []
    out = []; key = rec["key"]; root = run.linkroot; c = run.c
    val = "nilI" if c.strict else root
    out.append(("%s|frame" % key, "no other link is changed so far", ("py", lambda sr, st2: c.framed(run, root, parents(run, st2), run.model_comps["Parent"][1])[1])))
    if not c.strict: out.append(("%s|own" % key, "the node's own parent is set", ("py", lambda sr, st2: "(= (select %s (nodeof %s)) %s)" % (parents(run, st2), root, run.linktop))))
    for cn, _ in M.progress(run, fr, rec, st):
        def cnt(st2, cn=cn): return dict(M.progress(run, fr, rec, st2)).get(cn)
        def done(sr, st2, cnt=cnt):
            run.n += 1; i = "i?%d" % run.n
            return "(forall ((%s Int)) (! (=> (and (<= 0 %s) (< %s %s)) (= (select %s (nodeof %s)) %s)) :pattern (%s)))" % (i, i, i, cnt(st2), parents(run, st2), kid(root, i), val, kid(root, i))
        def below(sr, st2, cnt=cnt):
            run.n += 1; i, z, j = "i?%d" % run.n, "z?%d" % run.n, "j?%d" % run.n
            return "(forall ((%s Int) (%s Iface) (%s Int)) (! (=> (and (<= 0 %s) (< %s %s) (sub %s %s) (<= 0 %s) (< %s (kidn %s))) (= (select %s (nodeof %s)) %s)) :pattern ((sub %s %s) %s)))" % (i, z, j, i, i, cnt(st2), kid(root, i), z, j, j, z, parents(run, st2), kid(z, j), z, kid(root, i), z, kid(z, j))
        out.append(("%s|kids|%s" % (key, cn), "the children so far are linked", ("py", done)))
        out.append(("%s|below|%s" % (key, cn), "what is below the children so far is linked", ("py", below)))
        out.append(("%s|within|%s" % (key, cn), "%s within the children" % cn, ("py", lambda sr, st2, cnt=cnt: Le(cnt(st2), "(kidn %s)" % root))))
    return out
def contracts(sp):
    if sp.prop != "E04": return
    for k in list(sp.contracts): del sp.contracts[k]
    for n, f in sp.mod.funcs.items():
        if f.get("synth") or f.get("parent") or not f["blocks"] or (f.get("pkg") and f["pkg"] != E.ETX): continue
        sh = X.short(n); meth = sh.split(".")[-1]; T = sp.types.T.get(sh.split(".")[0]) if "." in sh else None
        ps = [p["t"] for p in f["params"]]; node = E.ETX + ".Node"
        if T is not None and meth == "Children": sp.contracts[sh] = Kids(sh, "children", T, ())
        elif "." in sh and meth == "Node" and len(ps) == 1: sp.contracts[sh] = NodeMethod(sh, "node", T, ("E04",))
        elif sh == "AST.UpdateParentRefs": sp.contracts[sh] = Refresh(sh, "links", T, ("E04",))
        elif ps == [node, node] and not f.get("tparams"):
            c = sp.contracts[sh] = Update(sh, "links", None, ("E04",))
            if "parent" in f["params"][1]["n"].lower(): c.at = (1, 0)
