# Contracts for pkg/dag.  Notation: rel(m) is the relation {(x,y) : y in m[x]};
# mem/reach/dist are membership, transitive closure and breadth-first distance.

define out(g) = rel(g.outboundEdges)
define inn(g) = rel(g.inboundEdges)

# ---- the class invariant of AcyclicGraph
define Shape(g) = { \
  graph: g != nil && allocated(g); \
  maps: g.vertices != nil && allocated(g.vertices) && g.inboundEdges != nil && allocated(g.inboundEdges) && g.outboundEdges != nil && allocated(g.outboundEdges) && g.ancestorsCache != nil && allocated(g.ancestorsCache) && g.descendantsCache != nil && allocated(g.descendantsCache); \
  distinct: g.inboundEdges != g.outboundEdges && g.inboundEdges != g.ancestorsCache && g.inboundEdges != g.descendantsCache && g.outboundEdges != g.ancestorsCache && g.outboundEdges != g.descendantsCache && g.ancestorsCache != g.descendantsCache; \
  outsets: forall x K :: {g.outboundEdges[x]} has(g.outboundEdges, x) ==> g.outboundEdges[x] != nil && allocated(g.outboundEdges[x]); \
  insets: forall x K :: {g.inboundEdges[x]} has(g.inboundEdges, x) ==> g.inboundEdges[x] != nil && allocated(g.inboundEdges[x]); \
  outown: forall x K, y K :: {g.outboundEdges[x], g.outboundEdges[y]} has(g.outboundEdges, x) && has(g.outboundEdges, y) && g.outboundEdges[x] == g.outboundEdges[y] ==> x == y; \
  inown: forall x K, y K :: {g.inboundEdges[x], g.inboundEdges[y]} has(g.inboundEdges, x) && has(g.inboundEdges, y) && g.inboundEdges[x] == g.inboundEdges[y] ==> x == y; \
  apart: forall x K, y K :: {g.outboundEdges[x], g.inboundEdges[y]} has(g.outboundEdges, x) && has(g.inboundEdges, y) ==> g.outboundEdges[x] != g.inboundEdges[y]; \
  outrep: forall x K, k K :: {has(g.outboundEdges[x], k)} has(g.outboundEdges, x) && has(g.outboundEdges[x], k) ==> g.outboundEdges[x][k] == k; \
  inrep: forall x K, k K :: {has(g.inboundEdges[x], k)} has(g.inboundEdges, x) && has(g.inboundEdges[x], k) ==> g.inboundEdges[x][k] == k \
}
define Caches(g) = { \
  acsets: forall x K :: {g.ancestorsCache[x]} has(g.ancestorsCache, x) ==> g.ancestorsCache[x] != nil && allocated(g.ancestorsCache[x]); \
  dcsets: forall x K :: {g.descendantsCache[x]} has(g.descendantsCache, x) ==> g.descendantsCache[x] != nil && allocated(g.descendantsCache[x]); \
  acapart: forall x K, y K :: {g.ancestorsCache[x], g.outboundEdges[y]} has(g.ancestorsCache, x) && has(g.outboundEdges, y) ==> g.ancestorsCache[x] != g.outboundEdges[y]; \
  acapart2: forall x K, y K :: {g.ancestorsCache[x], g.inboundEdges[y]} has(g.ancestorsCache, x) && has(g.inboundEdges, y) ==> g.ancestorsCache[x] != g.inboundEdges[y]; \
  dcapart: forall x K, y K :: {g.descendantsCache[x], g.outboundEdges[y]} has(g.descendantsCache, x) && has(g.outboundEdges, y) ==> g.descendantsCache[x] != g.outboundEdges[y]; \
  dcapart2: forall x K, y K :: {g.descendantsCache[x], g.inboundEdges[y]} has(g.descendantsCache, x) && has(g.inboundEdges, y) ==> g.descendantsCache[x] != g.inboundEdges[y]; \
  acrep: forall x K, k K :: {has(g.ancestorsCache[x], k)} has(g.ancestorsCache, x) && has(g.ancestorsCache[x], k) ==> g.ancestorsCache[x][k] == k; \
  dcrep: forall x K, k K :: {has(g.descendantsCache[x], k)} has(g.descendantsCache, x) && has(g.descendantsCache[x], k) ==> g.descendantsCache[x][k] == k; \
  acexact|D01 D03 D04 D06 D10 D11: forall x K, y K :: {has(g.ancestorsCache[x], y)} {has(g.ancestorsCache, x), reach(inn(g), x, y)} has(g.ancestorsCache, x) ==> (has(g.ancestorsCache[x], y) <==> reach(inn(g), x, y)); \
  dcexact|D01 D03 D04 D06 D10 D11: forall x K, y K :: {has(g.descendantsCache[x], y)} {has(g.descendantsCache, x), reach(out(g), x, y)} has(g.descendantsCache, x) ==> (has(g.descendantsCache[x], y) <==> reach(out(g), x, y)); \
  dcclosed|D06: forall x K, y K :: {has(g.descendantsCache, x), mem(out(g), x, y)} has(g.descendantsCache, x) && mem(out(g), x, y) ==> has(g.descendantsCache, y) \
}
define Graph(g) = { \
  nonzero: !has(g.vertices, zero); \
  mirror: forall x K, y K :: {mem(out(g), x, y)} {mem(inn(g), y, x)} mem(out(g), x, y) <==> mem(inn(g), y, x); \
  ends: forall x K, y K :: {mem(out(g), x, y)} mem(out(g), x, y) ==> has(g.vertices, x) && has(g.vertices, y); \
  acyclic|D01 D03 D06 D11: forall x K :: {reach(out(g), x, x)} !reach(out(g), x, x) \
}
define Inv(g) = { shape: Shape(g); graph: Graph(g); caches: Caches(g) }

# ---- what belongs to a graph; nothing else may be written by its methods
define OwnEdges(g, r) = (exists x K :: has(g.outboundEdges, x) && r == g.outboundEdges[x]) || (exists x K :: has(g.inboundEdges, x) && r == g.inboundEdges[x])
define OwnMaps(g, r) = r == g.vertices || r == g.inboundEdges || r == g.outboundEdges || r == g.ancestorsCache || r == g.descendantsCache
# storage stays the graph's own: whatever it holds afterwards it held before, or is new
define Keeps(g) = { \
  maps: (g.vertices == old(g.vertices) || fresh(g.vertices)) && (g.inboundEdges == old(g.inboundEdges) || fresh(g.inboundEdges)) && (g.outboundEdges == old(g.outboundEdges) || fresh(g.outboundEdges)) && (g.ancestorsCache == old(g.ancestorsCache) || fresh(g.ancestorsCache)) && (g.descendantsCache == old(g.descendantsCache) || fresh(g.descendantsCache)); \
  out: forall x K :: {g.outboundEdges[x]} has(g.outboundEdges, x) ==> fresh(g.outboundEdges[x]) || (old(has(g.outboundEdges, x)) && g.outboundEdges[x] == old(g.outboundEdges[x])); \
  inn: forall x K :: {g.inboundEdges[x]} has(g.inboundEdges, x) ==> fresh(g.inboundEdges[x]) || (old(has(g.inboundEdges, x)) && g.inboundEdges[x] == old(g.inboundEdges[x])) \
}
define SameEdges(g) = { out: same(out(g), old(out(g))); inn: same(inn(g), old(inn(g))) }
define SameVertices(g) = { keys: dom(g.vertices) == old(dom(g.vertices)); values: forall x K :: {g.vertices[x]} has(g.vertices, x) ==> g.vertices[x] == old(g.vertices[x]) }
# a query: nothing observable changes; only caches may be filled
define Undisturbed(g) = { keep: g.vertices == old(g.vertices) && g.inboundEdges == old(g.inboundEdges) && g.outboundEdges == old(g.outboundEdges) && g.ancestorsCache == old(g.ancestorsCache) && g.descendantsCache == old(g.descendantsCache); vertices: SameVertices(g); edges: SameEdges(g); keeps: Keeps(g) }

# ---- sets
define IsSet(s) = forall k T :: {s[k]} {has(s, k)} has(s, k) ==> s[k] == k

func Set.Add(s, v)
  tags D09 D11
  requires [nonnil] s != nil
  touches set
  modifies r where r == s
  ensures [domain] forall k T :: {has(s, k)} has(s, k) <==> old(has(s, k)) || k == v
  ensures [value] s[v] == v
  ensures [others] forall k T :: {s[k]} k != v ==> s[k] == old(s[k])

func Set.Delete(s, v)
  tags D09 D11
  touches set
  modifies r where r == s
  ensures [domain] forall k T :: {has(s, k)} has(s, k) <==> old(has(s, k)) && k != v
  ensures [others] forall k T :: {s[k]} k != v ==> s[k] == old(s[k])

func Set.Includes(s, v) (res)
  tags D09 D11
  ensures [member] res <==> has(s, v)

func Set.Intersection(s, other) (res)
  tags D09 D11
  requires [set] IsSet(s)
  requires [other] IsSet(other)
  requires [alloc] allocated(s) && allocated(other)
  allocates set
  ensures [exact] forall k T :: {has(res, k)} has(res, k) <==> has(s, k) && has(other, k)
  ensures [set] IsSet(res)
  ensures [new] fresh(res)
  ensures [nonnil] res != nil
  candidate M: set, I: iter :: forall k T :: {has(M, k)} has(M, k) ==> has(s, k) && has(other, k)
  candidate M: set, I: iter :: forall k T :: {I.done[k]} I.done[k] && has(s, k) && has(other, k) ==> has(M, k)
  candidate M: set :: IsSet(M)

func Set.Difference(s, other) (res)
  tags D09 D11
  requires [set] IsSet(s)
  requires [alloc] allocated(s) && allocated(other)
  allocates set
  ensures [exact] forall k T :: {has(res, k)} has(res, k) <==> has(s, k) && !has(other, k)
  ensures [set] IsSet(res)
  ensures [new] fresh(res)
  ensures [nonnil] res != nil
  candidate M: set, I: iter :: forall k T :: {has(M, k)} has(M, k) ==> has(s, k) && !has(other, k)
  candidate M: set, I: iter :: forall k T :: {I.done[k]} I.done[k] && !has(other, k) ==> has(M, k)
  candidate M: set :: IsSet(M)

func Set.Filter(s, cb) (res)
  tags D09 D11
  requires [set] IsSet(s)
  requires [alloc] allocated(s)
  allocates set
  ensures [exact] forall k T :: {has(res, k)} has(res, k) <==> has(s, k) && apply(cb, k)
  ensures [set] IsSet(res)
  ensures [new] fresh(res)
  ensures [nonnil] res != nil
  candidate M: set, I: iter :: forall k T :: {has(M, k)} has(M, k) ==> has(s, k) && apply(cb, k)
  candidate M: set, I: iter :: forall k T :: {I.done[k]} I.done[k] && apply(cb, k) ==> has(M, k)
  candidate M: set :: IsSet(M)

func Set.List(s) (res)
  tags D09 D11
  requires [set] IsSet(s)
  ensures [length] len(res) == len(s)
  ensures [members] forall i int :: {res[i]} 0 <= i && i < len(res) ==> has(s, res[i])
  ensures [all] forall k T :: {has(s, k)} has(s, k) ==> elems(res)[k]
  ensures [once] forall i int, j int :: {res[i], res[j]} 0 <= i && i < j && j < len(res) ==> res[i] != res[j]
  candidate F: slice, I: iter :: len(F) == card(I.done)
  candidate F: slice, I: iter :: forall k T :: {I.done[k]} {elems(F)[k]} I.done[k] <==> elems(F)[k]
  candidate F: slice :: forall i int, j int :: {F[i], F[j]} 0 <= i && i < j && j < len(F) ==> F[i] != F[j]
  # a list that is filled by index
  candidate N: int, I: iter :: N == card(I.done)
  candidate F: slice :: len(F) == len(s)
  candidate F: slice, N: int, I: iter :: forall k T :: {I.done[k]} {elems(F, N)[k]} I.done[k] <==> elems(F, N)[k]
  candidate F: slice, N: int :: forall i int, j int :: {F[i], F[j]} 0 <= i && i < j && j < N ==> F[i] != F[j]

func Set.Copy(s) (res)
  tags D09 D11
  requires [set] IsSet(s)
  requires [alloc] allocated(s)
  allocates set
  ensures [exact] forall k T :: {has(res, k)} has(res, k) <==> has(s, k)
  ensures [set] IsSet(res)
  ensures [new] fresh(res)
  ensures [nonnil] res != nil
  candidate M: set, I: iter :: forall k T :: {has(M, k)} has(M, k) ==> has(s, k)
  candidate M: set, I: iter :: forall k T :: {I.done[k]} I.done[k] ==> has(M, k)
  candidate M: set :: IsSet(M)

# ---- errors
define VertexError(g, id, err) = { \
  iff: err == nil <==> old(has(g.vertices, id)) && id != zero; \
  which: err != nil ==> (err == ErrVertexIDEmpty && id == zero) || (err == ErrVertexNotFound && id != zero && !old(has(g.vertices, id))) \
}
define EdgeOK(g, s, t) = old(has(g.vertices, s)) && old(has(g.vertices, t)) && s != t && s != zero && t != zero
define EdgeErrorKind(g, s, t, err) = (err == ErrEdgeSourceIDEmpty && s == zero) || (err == ErrEdgeTargetIDEmpty && t == zero) || (err == ErrEdgeSourceTargetIdentical && s == t) || (err == ErrEdgeSourceIDNotFound && s != zero && !old(has(g.vertices, s))) || (err == ErrEdgeTargetIDNotFound && t != zero && !old(has(g.vertices, t)))

func NewAcyclicGraph() (g)
  tags D01 D02 D03 D04 D05 D06 D07 D10 D11
  allocates graph emap tmap set
  ensures [inv] Inv(g)
  ensures [empty|D04 D05] forall x K :: {has(g.vertices, x)} !has(g.vertices, x)
  ensures [noedges|D04 D05] forall x K, y K :: {mem(out(g), x, y)} !mem(out(g), x, y)
  ensures [new|D10] fresh(g) && fresh(g.vertices) && fresh(g.inboundEdges) && fresh(g.outboundEdges) && fresh(g.ancestorsCache) && fresh(g.descendantsCache)
  use ends(out(g))
  use ends(inn(g))

func AcyclicGraph.checkVertexID(g, id) (err)
  tags D04 D05 D11
  requires [inv] Inv(g)
  ensures [error] VertexError(g, id, err)

func AcyclicGraph.checkEdgeIDs(g, s, t) (err)
  tags D04 D05 D11
  requires [inv] Inv(g)
  ensures [ok] err == nil <==> EdgeOK(g, s, t)
  ensures [which|D01 D04 D05] err != nil ==> EdgeErrorKind(g, s, t, err)

func AcyclicGraph.AddVertex(g, id, v) (err)
  tags D01 D02 D03 D04 D05 D06 D07 D10 D11
  requires [inv] Inv(g)
  touches tmap
  modifies r where r == g.vertices
  ensures [inv] Inv(g)
  ensures [ok|D04] err == nil <==> id != zero && !old(has(g.vertices, id))
  ensures [which|D04] err != nil ==> (err == ErrVertexIDEmpty && id == zero) || (err == ErrVertexDuplicate && old(has(g.vertices, id)))
  ensures [added|D04] err == nil ==> (forall x K :: {has(g.vertices, x)} has(g.vertices, x) <==> old(has(g.vertices, x)) || x == id)
  ensures [value|D04] err == nil ==> g.vertices[id] == v
  ensures [others|D04] forall x K :: {g.vertices[x]} old(has(g.vertices, x)) ==> g.vertices[x] == old(g.vertices[x])
  ensures [failed|D04] err != nil ==> dom(g.vertices) == old(dom(g.vertices))
  ensures [edges|D04] SameEdges(g)
  ensures [keeps|D10] Keeps(g)

func AcyclicGraph.GetVertex(g, id) (v, err)
  tags D05 D10 D11
  requires [inv] Inv(g)
  ensures [error|D05 D04] VertexError(g, id, err)
  ensures [value|D05] err == nil ==> v == box(g.vertices[id])
  ensures [noresult|D05] err != nil ==> v == nil

func AcyclicGraph.DeleteVertex(g, id) (err)
  tags D01 D02 D03 D04 D05 D06 D07 D10 D11
  requires [inv] Inv(g)
  allocates set emap tmap
  modifies r where r == g.vertices || r == g.inboundEdges || r == g.outboundEdges || r == g.ancestorsCache || r == g.descendantsCache || OwnEdges(g, r)
  ensures [inv] Inv(g)
  ensures [error|D04] VertexError(g, id, err)
  ensures [removed|D04] err == nil ==> (forall x K :: {has(g.vertices, x)} has(g.vertices, x) <==> old(has(g.vertices, x)) && x != id)
  ensures [values|D04] forall x K :: {g.vertices[x]} has(g.vertices, x) ==> g.vertices[x] == old(g.vertices[x])
  ensures [edges|D02 D04] err == nil ==> (forall x K, y K :: {mem(out(g), x, y)} mem(out(g), x, y) <==> old(mem(out(g), x, y)) && x != id && y != id)
  ensures [failedv|D04] err != nil ==> SameVertices(g)
  ensures [failede|D04] err != nil ==> SameEdges(g)
  ensures [keeps|D10] Keeps(g)
  use local(old(out(g)), out(g))
  use local(old(inn(g)), inn(g))
  use atcalls(conv(old(inn(g)), old(out(g))))
  use mono(out(g), old(out(g)))
  candidate :: Inv(g)
  candidate :: Keeps(g)
  candidate :: SameVertices(g)
  candidate :: same(out(g), pre(out(g)))
  candidate :: same(inn(g), pre(inn(g)))
  candidate I: iter :: forall x K, y K :: {mem(out(g), x, y)} mem(out(g), x, y) <==> pre(mem(out(g), x, y)) && !(y == id && I.done[x])
  candidate I: iter :: forall x K, y K :: {mem(inn(g), x, y)} mem(inn(g), x, y) <==> pre(mem(inn(g), x, y)) && !(y == id && I.done[x])
  candidate I: iter :: forall x K :: {has(g.ancestorsCache, x)} has(g.ancestorsCache, x) <==> pre(has(g.ancestorsCache, x)) && !I.done[x]
  candidate I: iter :: forall x K :: {has(g.descendantsCache, x)} has(g.descendantsCache, x) <==> pre(has(g.descendantsCache, x)) && !I.done[x]
  candidate :: dom(g.ancestorsCache) == pre(dom(g.ancestorsCache))
  candidate :: dom(g.descendantsCache) == pre(dom(g.descendantsCache))
  candidate :: forall x K :: {g.ancestorsCache[x]} g.ancestorsCache[x] == pre(g.ancestorsCache[x])
  candidate :: forall x K :: {g.descendantsCache[x]} g.descendantsCache[x] == pre(g.descendantsCache[x])
  candidate :: forall x K, y K :: {has(g.ancestorsCache[x], y)} has(g.ancestorsCache, x) ==> (has(g.ancestorsCache[x], y) <==> pre(has(g.ancestorsCache[x], y)))
  candidate :: forall x K, y K :: {has(g.descendantsCache[x], y)} has(g.descendantsCache, x) ==> (has(g.descendantsCache[x], y) <==> pre(has(g.descendantsCache[x], y)))
  candidate I: iter :: dom(I.m) == I.dom0

func AcyclicGraph.AddEdge(g, s, t) (err)
  tags D01 D02 D03 D04 D05 D06 D07 D10 D11
  requires [inv] Inv(g)
  allocates set emap
  modifies r where r == g.inboundEdges || r == g.outboundEdges || r == g.ancestorsCache || r == g.descendantsCache || OwnEdges(g, r)
  ensures [inv] Inv(g)
  ensures [loop|D01 D04] err == ErrEdgeLoop ==> old(reach(out(g), t, s))
  ensures [accepted|D01 D04] err == nil <==> EdgeOK(g, s, t) && !old(mem(out(g), s, t)) && !old(reach(out(g), t, s))
  ensures [which|D04] err != nil ==> EdgeErrorKind(g, s, t, err) || (err == ErrEdgeDuplicate && EdgeOK(g, s, t) && old(mem(out(g), s, t))) || (err == ErrEdgeLoop && EdgeOK(g, s, t) && old(reach(out(g), t, s)))
  ensures [added|D04 D02] err == nil ==> (forall x K, y K :: {mem(out(g), x, y)} mem(out(g), x, y) <==> old(mem(out(g), x, y)) || (x == s && y == t))
  ensures [failed|D04] err != nil ==> SameEdges(g)
  ensures [vertices|D04] SameVertices(g)
  ensures [keeps|D10] Keeps(g)
  use addedge(old(out(g)), out(g), s, t)
  use local(old(out(g)), out(g))
  use local(old(inn(g)), inn(g))
  use atcalls(conv(old(inn(g)), old(out(g))))
  candidate :: Inv(g)
  candidate :: Keeps(g)
  candidate :: SameVertices(g)
  candidate :: same(out(g), pre(out(g)))
  candidate :: same(inn(g), pre(inn(g)))
  candidate I: iter :: forall x K :: {has(g.ancestorsCache, x)} has(g.ancestorsCache, x) <==> pre(has(g.ancestorsCache, x)) && !I.done[x]
  candidate I: iter :: forall x K :: {has(g.descendantsCache, x)} has(g.descendantsCache, x) <==> pre(has(g.descendantsCache, x)) && !I.done[x]
  candidate :: forall x K :: {g.ancestorsCache[x]} g.ancestorsCache[x] == pre(g.ancestorsCache[x])
  candidate :: forall x K :: {g.descendantsCache[x]} g.descendantsCache[x] == pre(g.descendantsCache[x])
  candidate I: iter :: dom(I.m) == I.dom0

func AcyclicGraph.IsEdge(g, s, t) (res, err)
  tags D05 D10 D11
  requires [inv] Inv(g)
  ensures [ok] err == nil <==> EdgeOK(g, s, t)
  ensures [which|D05] err != nil ==> EdgeErrorKind(g, s, t, err) && !res
  ensures [exact] err == nil ==> (res <==> mem(out(g), s, t))

func AcyclicGraph.DeleteEdge(g, s, t) (err)
  tags D01 D02 D03 D04 D05 D06 D07 D10 D11
  requires [inv] Inv(g)
  allocates set emap
  modifies r where r == g.inboundEdges || r == g.outboundEdges || r == g.ancestorsCache || r == g.descendantsCache || OwnEdges(g, r)
  ensures [inv] Inv(g)
  ensures [ok|D04] err == nil <==> EdgeOK(g, s, t) && old(mem(out(g), s, t))
  ensures [which|D04] err != nil ==> EdgeErrorKind(g, s, t, err) || (err == ErrEdgeNotFound && EdgeOK(g, s, t) && !old(mem(out(g), s, t)))
  ensures [removed|D04 D02] err == nil ==> (forall x K, y K :: {mem(out(g), x, y)} mem(out(g), x, y) <==> old(mem(out(g), x, y)) && !(x == s && y == t))
  ensures [failed|D04] err != nil ==> SameEdges(g)
  ensures [vertices|D04] SameVertices(g)
  ensures [keeps|D10] Keeps(g)
  use local(old(out(g)), out(g))
  use local(old(inn(g)), inn(g))
  use atcalls(conv(old(inn(g)), old(out(g))))
  use mono(out(g), old(out(g)))
  candidate :: Inv(g)
  candidate :: Keeps(g)
  candidate :: SameVertices(g)
  candidate :: same(out(g), pre(out(g)))
  candidate :: same(inn(g), pre(inn(g)))
  candidate I: iter :: forall x K :: {has(g.ancestorsCache, x)} has(g.ancestorsCache, x) <==> pre(has(g.ancestorsCache, x)) && !I.done[x]
  candidate I: iter :: forall x K :: {has(g.descendantsCache, x)} has(g.descendantsCache, x) <==> pre(has(g.descendantsCache, x)) && !I.done[x]
  candidate :: forall x K :: {g.ancestorsCache[x]} g.ancestorsCache[x] == pre(g.ancestorsCache[x])
  candidate :: forall x K :: {g.descendantsCache[x]} g.descendantsCache[x] == pre(g.descendantsCache[x])
  candidate I: iter :: dom(I.m) == I.dom0

func AcyclicGraph.GetOrder(g) (n)
  tags D05 D10 D11
  requires [inv] Inv(g)
  ensures [exact|D05] n == card(dom(g.vertices))

func AcyclicGraph.GetSize(g) (n)
  tags D05 D10 D11
  requires [inv] Inv(g)
  ensures [exact|D05] n == ecount(out(g), dom(g.outboundEdges))
  candidate N: int, I: iter :: N == ecount(out(g), I.done)

func AcyclicGraph.GetLeaves(g) (res)
  tags D05 D10 D11
  requires [inv] Inv(g)
  allocates tmap
  ensures [exact|D05] forall x K :: {has(res, x)} has(res, x) <==> has(g.vertices, x) && (forall y K :: {mem(out(g), x, y)} !mem(out(g), x, y))
  ensures [values|D05] forall x K :: {res[x]} has(res, x) ==> res[x] == g.vertices[x]
  ensures [new|D10] fresh(res) && res != g.vertices
  candidate M: tmap, I: iter :: forall x K :: {has(M, x)} has(M, x) <==> I.done[x] && (forall y K :: {mem(out(g), x, y)} !mem(out(g), x, y))
  candidate M: tmap :: forall x K :: {M[x]} has(M, x) ==> M[x] == g.vertices[x]

func AcyclicGraph.GetRoots(g) (res)
  tags D05 D10 D11
  requires [inv] Inv(g)
  allocates tmap
  ensures [exact|D05 D06] forall x K :: {has(res, x)} has(res, x) <==> has(g.vertices, x) && (forall y K :: {mem(inn(g), x, y)} !mem(inn(g), x, y))
  ensures [values|D05] forall x K :: {res[x]} has(res, x) ==> res[x] == g.vertices[x]
  ensures [new|D10] fresh(res) && res != g.vertices
  candidate M: tmap, I: iter :: forall x K :: {has(M, x)} has(M, x) <==> I.done[x] && (forall y K :: {mem(inn(g), x, y)} !mem(inn(g), x, y))
  candidate M: tmap :: forall x K :: {M[x]} has(M, x) ==> M[x] == g.vertices[x]

func copyMap(in) (out)
  tags D05 D10 D11
  requires [alloc] allocated(in)
  allocates tmap
  ensures [exact] forall x K :: {has(out, x)} has(out, x) <==> has(in, x)
  ensures [values] forall x K :: {out[x]} has(out, x) ==> out[x] == in[x]
  ensures [new] fresh(out) && out != nil
  candidate M: tmap, I: iter :: forall x K :: {has(M, x)} {I.done[x]} has(M, x) <==> I.done[x]
  candidate M: tmap :: forall x K :: {M[x]} has(M, x) ==> M[x] == in[x]

func AcyclicGraph.GetVertices(g) (res)
  tags D05 D10 D11
  requires [inv] Inv(g)
  allocates tmap
  ensures [exact|D05] forall x K :: {has(res, x)} has(res, x) <==> has(g.vertices, x)
  ensures [values|D05] forall x K :: {res[x]} has(res, x) ==> res[x] == g.vertices[x]
  ensures [new|D10] fresh(res) && res != nil

func AcyclicGraph.GetParents(g, id) (res, err)
  tags D05 D10 D02 D11
  requires [inv] Inv(g)
  allocates tmap
  ensures [error|D05 D04] VertexError(g, id, err)
  ensures [noresult|D05] err != nil ==> res == nil
  ensures [exact|D05 D02] err == nil ==> (forall x K :: {has(res, x)} has(res, x) <==> mem(inn(g), id, x))
  ensures [values|D05] forall x K :: {res[x]} has(res, x) ==> res[x] == g.vertices[x]
  ensures [new|D10] err == nil ==> fresh(res) && res != nil
  candidate M: tmap, I: iter :: forall x K :: {has(M, x)} {I.done[x]} has(M, x) <==> I.done[x]
  candidate M: tmap :: forall x K :: {M[x]} has(M, x) ==> M[x] == g.vertices[x]

func AcyclicGraph.GetChildren(g, id) (res, err)
  tags D05 D10 D02 D11
  requires [inv] Inv(g)
  allocates tmap
  ensures [error|D05 D04] VertexError(g, id, err)
  ensures [noresult|D05] err != nil ==> res == nil
  ensures [exact|D05 D02] err == nil ==> (forall x K :: {has(res, x)} has(res, x) <==> mem(out(g), id, x))
  ensures [values|D05] forall x K :: {res[x]} has(res, x) ==> res[x] == g.vertices[x]
  ensures [new|D10] err == nil ==> fresh(res) && res != nil
  candidate M: tmap, I: iter :: forall x K :: {has(M, x)} {I.done[x]} has(M, x) <==> I.done[x]
  candidate M: tmap :: forall x K :: {M[x]} has(M, x) ==> M[x] == g.vertices[x]

func AcyclicGraph.loadFromCache(g, cache) (res)
  tags D03 D10 D11
  requires [inv] Inv(g)
  requires [alloc] allocated(cache)
  requires [vertices] forall x K :: {has(cache, x)} has(cache, x) ==> has(g.vertices, x)
  allocates tmap
  ensures [exact] forall x K :: {has(res, x)} has(res, x) <==> has(cache, x)
  ensures [values] forall x K :: {res[x]} has(res, x) ==> res[x] == g.vertices[x]
  ensures [new] fresh(res) && res != nil
  candidate M: tmap, I: iter :: forall x K :: {has(M, x)} {I.done[x]} has(M, x) <==> I.done[x]
  candidate M: tmap :: forall x K :: {M[x]} has(M, x) ==> M[x] == g.vertices[x]

func AcyclicGraph.flushCaches(g)
  tags D03 D06 D11
  requires [inv] Shape(g)
  allocates caches emap
  modifies r where r == g
  ensures [shape] Shape(g)
  ensures [ac] fresh(g.ancestorsCache) && (forall x K :: {has(g.ancestorsCache, x)} !has(g.ancestorsCache, x))
  ensures [dc] fresh(g.descendantsCache) && (forall x K :: {has(g.descendantsCache, x)} !has(g.descendantsCache, x))
  ensures [edges] SameEdges(g)

func AcyclicGraph.getAncestorsIDs(g, id) (ids, err)
  tags D01 D02 D03 D04 D05 D06 D07 D10 D11
  requires [inv] Inv(g)
  allocates set
  touches emap
  modifies r where r == g.ancestorsCache
  ensures [inv] Inv(g)
  ensures [query] Undisturbed(g)
  ensures [error] VertexError(g, id, err)
  ensures [noresult] err != nil ==> ids == nil
  ensures [exact|D01 D03 D04 D06 D10 D11] err == nil ==> (forall y K :: {has(ids, y)} {reach(inn(g), id, y)} has(ids, y) <==> reach(inn(g), id, y))
  ensures [set] forall y K :: {ids[y]} {has(ids, y)} has(ids, y) ==> ids[y] == y
  ensures [apart1] forall x K :: {g.outboundEdges[x]} err == nil && has(g.outboundEdges, x) ==> ids != g.outboundEdges[x]
  ensures [apart2] forall x K :: {g.inboundEdges[x]} err == nil && has(g.inboundEdges, x) ==> ids != g.inboundEdges[x]
  ensures [some] err == nil ==> ids != nil && allocated(ids)
  ensures [caches] KeepsAC(g)
  decreases rcard(inn(g), id)
  use atcalls(below(old(inn(g))))
  use atcalls(conv(old(inn(g)), old(out(g))))
  use unfold(inn(g), id)
  use ext(old(out(g)), out(g))
  use ext(old(inn(g)), inn(g))
  use atloops(ext(old(out(g)), out(g)))
  use atloops(ext(old(inn(g)), inn(g)))
  candidate :: Inv(g)
  candidate :: Undisturbed(g)
  candidate :: KeepsAC(g)
  candidate M: set, I: iter :: forall p K, y K :: {I.done[p], reach(inn(g), p, y)} I.done[p] && reach(inn(g), p, y) ==> has(M, y)
  candidate M: set, I: iter :: forall p K :: {I.done[p]} I.done[p] ==> has(M, p)
  candidate M: set, I: iter :: forall p K, y K :: {I.done[p], reach(inn(g), p, y)} I.done[p] && p != I.key && reach(inn(g), p, y) ==> has(M, y)
  candidate M: set, I: iter :: forall p K :: {I.done[p]} I.done[p] && p != I.key ==> has(M, p)
  candidate M: set :: forall y K :: {has(M, y)} has(M, y) ==> reach(inn(g), id, y)
  candidate M: set :: forall y K :: {M[y]} {has(M, y)} has(M, y) ==> M[y] == y
  candidate M: set :: forall x K :: {g.ancestorsCache[x]} has(g.ancestorsCache, x) ==> g.ancestorsCache[x] != M
  candidate M: set :: forall x K :: {g.descendantsCache[x]} has(g.descendantsCache, x) ==> g.descendantsCache[x] != M
  candidate I: iter :: dom(I.m) == I.dom0

define KeepsAC(g) = { \
  kept: forall x K :: {has(g.ancestorsCache, x)} old(has(g.ancestorsCache, x)) ==> has(g.ancestorsCache, x); \
  own: forall x K :: {g.ancestorsCache[x]} has(g.ancestorsCache, x) ==> fresh(g.ancestorsCache[x]) || (old(has(g.ancestorsCache, x)) && g.ancestorsCache[x] == old(g.ancestorsCache[x])) \
}
define KeepsDC(g) = { \
  kept: forall x K :: {has(g.descendantsCache, x)} old(has(g.descendantsCache, x)) ==> has(g.descendantsCache, x); \
  own: forall x K :: {g.descendantsCache[x]} has(g.descendantsCache, x) ==> fresh(g.descendantsCache[x]) || (old(has(g.descendantsCache, x)) && g.descendantsCache[x] == old(g.descendantsCache[x])) \
}

func AcyclicGraph.getDescendantsIDs(g, id) (ids, err)
  tags D01 D02 D03 D04 D05 D06 D07 D10 D11
  requires [inv] Inv(g)
  allocates set
  touches emap
  modifies r where r == g.descendantsCache
  ensures [inv] Inv(g)
  ensures [query] Undisturbed(g)
  ensures [error] VertexError(g, id, err)
  ensures [noresult] err != nil ==> ids == nil
  ensures [exact|D01 D03 D04 D06 D10 D11] err == nil ==> (forall y K :: {has(ids, y)} {reach(out(g), id, y)} has(ids, y) <==> reach(out(g), id, y))
  ensures [set] forall y K :: {ids[y]} {has(ids, y)} has(ids, y) ==> ids[y] == y
  ensures [apart1] forall x K :: {g.outboundEdges[x]} err == nil && has(g.outboundEdges, x) ==> ids != g.outboundEdges[x]
  ensures [apart2] forall x K :: {g.inboundEdges[x]} err == nil && has(g.inboundEdges, x) ==> ids != g.inboundEdges[x]
  ensures [some] err == nil ==> ids != nil && allocated(ids)
  ensures [cached|D06] err == nil ==> has(g.descendantsCache, id)
  ensures [caches] KeepsDC(g)
  decreases rcard(out(g), id)
  use atcalls(below(old(out(g))))
  use unfold(out(g), id)
  use ext(old(out(g)), out(g))
  use ext(old(inn(g)), inn(g))
  use atloops(ext(old(out(g)), out(g)))
  use atloops(ext(old(inn(g)), inn(g)))
  candidate :: Inv(g)
  candidate :: Undisturbed(g)
  candidate :: KeepsDC(g)
  candidate I: iter :: forall p K :: {I.done[p]} I.done[p] ==> has(g.descendantsCache, p)
  candidate I: iter :: forall p K :: {I.done[p]} I.done[p] && p != I.key ==> has(g.descendantsCache, p)
  candidate M: set, I: iter :: forall p K, y K :: {I.done[p], reach(out(g), p, y)} I.done[p] && reach(out(g), p, y) ==> has(M, y)
  candidate M: set, I: iter :: forall p K :: {I.done[p]} I.done[p] ==> has(M, p)
  candidate M: set, I: iter :: forall p K, y K :: {I.done[p], reach(out(g), p, y)} I.done[p] && p != I.key && reach(out(g), p, y) ==> has(M, y)
  candidate M: set, I: iter :: forall p K :: {I.done[p]} I.done[p] && p != I.key ==> has(M, p)
  candidate M: set :: forall y K :: {has(M, y)} has(M, y) ==> reach(out(g), id, y)
  candidate M: set :: forall y K :: {M[y]} {has(M, y)} has(M, y) ==> M[y] == y
  candidate M: set :: forall x K :: {g.ancestorsCache[x]} has(g.ancestorsCache, x) ==> g.ancestorsCache[x] != M
  candidate M: set :: forall x K :: {g.descendantsCache[x]} has(g.descendantsCache, x) ==> g.descendantsCache[x] != M
  candidate I: iter :: dom(I.m) == I.dom0

func AcyclicGraph.GetAncestors(g, id) (res, err)
  tags D03 D04 D06 D10 D11
  requires [inv] Inv(g)
  allocates set tmap
  touches emap
  modifies r where r == g.ancestorsCache
  ensures [inv] Inv(g)
  ensures [query|D10] Undisturbed(g)
  ensures [error|D03 D04] VertexError(g, id, err)
  ensures [noresult|D03] err != nil ==> res == nil
  ensures [exact|D03] err == nil ==> (forall y K :: {has(res, y)} {reach(inn(g), id, y)} has(res, y) <==> reach(inn(g), id, y))
  ensures [values|D03] forall y K :: {res[y]} has(res, y) ==> res[y] == g.vertices[y]
  ensures [new|D10] err == nil ==> fresh(res) && res != nil
  use atcalls(ends(inn(g)))
  use ends(inn(g))


func AcyclicGraph.GetDescendants(g, id) (res, err)
  tags D03 D04 D06 D10 D11
  requires [inv] Inv(g)
  allocates set tmap
  touches emap
  modifies r where r == g.descendantsCache
  ensures [inv] Inv(g)
  ensures [query|D10] Undisturbed(g)
  ensures [error|D03 D04] VertexError(g, id, err)
  ensures [noresult|D03] err != nil ==> res == nil
  ensures [exact|D03] err == nil ==> (forall y K :: {has(res, y)} {reach(out(g), id, y)} has(res, y) <==> reach(out(g), id, y))
  ensures [values|D03] forall y K :: {res[y]} has(res, y) ==> res[y] == g.vertices[y]
  ensures [new|D10] err == nil ==> fresh(res) && res != nil
  use atcalls(ends(out(g)))
  use ends(out(g))

func AcyclicGraph.ReduceTransitively(g)
  tags D01 D02 D03 D04 D05 D06 D07 D10 D11
  requires [inv] Inv(g)
  allocates set emap tmap graph
  modifies r where r == g || r == g.descendantsCache || OwnEdges(g, r)
  ensures [inv] Inv(g)
  ensures [exact|D06] forall x K, y K :: {mem(out(g), x, y)} mem(out(g), x, y) <==> old(mem(out(g), x, y)) && !indirect(old(out(g)), x, y)
  ensures [paths|D06] forall x K, y K :: {reach(out(g), x, y)} reach(out(g), x, y) <==> old(reach(out(g), x, y))
  ensures [vertices|D06] SameVertices(g)
  ensures [keeps|D10] Keeps(g)
  use reduce(old(out(g)), out(g))
  use mono(out(g), old(out(g)))
  use ext(old(out(g)), out(g))
  use ext(old(inn(g)), inn(g))
  use atloops(root(out(g), dom(g.vertices)))
  use atloops(ends(out(g)))
  use atloops(closed(out(g), dom(g.descendantsCache)))
  use atloops(ext(old(out(g)), out(g)))
  use atloops(ext(old(inn(g)), inn(g)))
  candidate :: Inv(g)
  candidate :: Keeps(g)
  candidate :: SameVertices(g)
  candidate :: SameEdges(g)
  candidate :: Undisturbed(g)
  candidate :: KeepsDC(g)
  candidate I: iter :: forall x K :: {I.done[x]} {has(g.descendantsCache, x)} I.done[x] ==> has(g.descendantsCache, x)
  candidate :: forall x K :: {has(g.vertices, x)} has(g.vertices, x) ==> has(g.descendantsCache, x)
  candidate :: forall x K, y K :: {has(g.descendantsCache[x], y)} has(g.descendantsCache, x) ==> (has(g.descendantsCache[x], y) <==> old(reach(out(g), x, y)))
  candidate I: iter :: forall x K, y K :: {mem(out(g), x, y)} {old(mem(out(g), x, y))} mem(out(g), x, y) <==> old(mem(out(g), x, y)) && !(I.done[x] && indirect(old(out(g)), x, y))
  candidate I: iter :: forall x K, y K :: {mem(out(g), x, y)} {old(mem(out(g), x, y))} mem(out(g), x, y) <==> old(mem(out(g), x, y)) && !(I.done[x] && x != I.key && indirect(old(out(g)), x, y))
  candidate I: iter, J: iter :: forall x K, y K :: {mem(out(g), x, y)} {old(mem(out(g), x, y))} mem(out(g), x, y) <==> old(mem(out(g), x, y)) && !((I.done[x] && x != I.key || x == I.key && J.done[y]) && indirect(old(out(g)), x, y))
  candidate B: bool :: forall x K, y K :: {mem(out(g), x, y)} {old(mem(out(g), x, y))} !B ==> (mem(out(g), x, y) <==> old(mem(out(g), x, y)))
  candidate M: set, I: iter :: forall y K :: {has(M, y)} has(M, y) ==> indirect(old(out(g)), I.key, y)
  candidate M: set, I: iter :: forall y K :: {indirect(old(out(g)), I.key, y)} indirect(old(out(g)), I.key, y) ==> has(M, y)
  candidate M: set, J: iter :: forall z K, y K :: {J.done[z], old(reach(out(g), z, y))} J.done[z] && old(reach(out(g), z, y)) ==> has(M, y)
  candidate M: set, J: iter :: forall z K, y K :: {J.done[z], old(reach(out(g), z, y))} J.done[z] && z != J.key && old(reach(out(g), z, y)) ==> has(M, y)
  candidate M: set, L: iter :: forall y K :: {L.done[y]} L.done[y] ==> has(M, y)
  candidate M: set :: forall y K :: {M[y]} {has(M, y)} has(M, y) ==> M[y] == y
  candidate :: forall x K, y K :: {mem(out(g), x, y)} mem(out(g), x, y) ==> old(mem(out(g), x, y))

# ---- breadth-first walks.  Listed(R, x, q, n, stop): the n vertices of q are what a walk over the
# relation R from x has delivered when it ends; stop tells whether it was asked to stop
define Listed(R, x, q, n, stop) = { \
  some|D07: 0 <= n; \
  once|D07: forall i int, j int :: {q[i], q[j]} 0 <= i && i < j && j < n ==> q[i] != q[j]; \
  only|D07: forall i int :: {q[i]} 0 <= i && i < n ==> reach(R, x, q[i]); \
  all|D07: !stop ==> (forall y K :: {reach(R, x, y)} reach(R, x, y) ==> elems(q, n)[y]); \
  order|D07: forall i int, j int :: {q[i], q[j]} 0 <= i && i < j && j < n ==> dist(R, x, q[i]) <= dist(R, x, q[j]); \
  prefix|D07: forall i int, y K :: {q[i], reach(R, x, y)} 0 <= i && i < n && reach(R, x, y) && !elems(q, n)[y] ==> dist(R, x, q[i]) <= dist(R, x, y) \
}

func AcyclicGraph.AncestorsWalker(g, id) (ids, signal, err)
  tags D07 D08 D10 D11
  requires [inv] Inv(g)
  allocates chan set
  ensures [error] VertexError(g, id, err)
  ensures [none] err != nil ==> ids == nil && signal == nil
  ensures [served] err == nil ==> served(ids) && chrcv(ids) == 0 && fresh(ids) && fresh(signal)
  ensures [room|D08] err == nil ==> chcap(signal) >= 1
  ensures [list|D07] err == nil ==> Listed(old(inn(g)), id, finseq(ids), finlen(ids), finstop(ids))
  delivers [list|D07] Listed(old(inn(g)), id, q, n, stop)
  use atgo(cut(old(inn(g)), id, elems(q, n), empty()))
  use atgo(distance(old(inn(g)), id))
  use atloops(distance(old(inn(g)), id))
  variant C: chan :: rcard(old(inn(g)), id) - chn(C) using room(old(inn(g)), id, chseq(C), chn(C))
  candidate :: Inv(g)
  candidate V: set :: forall y K :: {has(V, y)} has(V, y) ==> reach(old(inn(g)), id, y)
  candidate V: set, I: iter :: forall y K :: {has(V, y)} {I.done[y]} has(V, y) <==> I.done[y]
  candidate F: slice, I: iter :: forall y K :: {elems(F)[y]} {I.done[y]} elems(F)[y] <==> I.done[y]
  candidate V: set, F: slice :: forall y K :: {elems(F)[y]} elems(F)[y] ==> has(V, y)
  candidate F: slice :: forall i int, j int :: {F[i], F[j]} 0 <= i && i < j && j < len(F) ==> F[i] != F[j]
  candidate F: slice :: forall i int, j int :: {F[i], F[j]} 0 <= i && i < j && j < len(F) ==> dist(old(inn(g)), id, F[i]) <= dist(old(inn(g)), id, F[j])
  candidate F: slice :: forall i int :: {F[i]} 0 <= i && i < len(F) ==> dist(old(inn(g)), id, F[i]) == 1
  candidate F: slice :: forall i int, j int :: {F[i], F[j]} 0 <= i && i < len(F) && 0 <= j && j < len(F) ==> dist(old(inn(g)), id, F[j]) <= dist(old(inn(g)), id, F[i]) + 1
  candidate F: slice, E: elt :: forall i int :: {F[i]} 0 <= i && i < len(F) ==> dist(old(inn(g)), id, E) <= dist(old(inn(g)), id, F[i]) && dist(old(inn(g)), id, F[i]) <= dist(old(inn(g)), id, E) + 1
  candidate F: slice, E: elt :: !elems(F)[E]
  candidate V: set, E: elt :: has(V, E)
  candidate C: chan :: 0 <= chn(C)
  candidate C: chan :: !chclosed(C)
  candidate C: chan :: forall i int, j int :: {chseq(C)[i], chseq(C)[j]} 0 <= i && i < j && j < chn(C) ==> chseq(C)[i] != chseq(C)[j]
  candidate C: chan :: forall i int, j int :: {chseq(C)[i], chseq(C)[j]} 0 <= i && i < j && j < chn(C) ==> dist(old(inn(g)), id, chseq(C)[i]) <= dist(old(inn(g)), id, chseq(C)[j])
  candidate C: chan, V: set :: forall y K :: {elems(chseq(C), chn(C))[y]} elems(chseq(C), chn(C))[y] ==> has(V, y)
  candidate C: chan, F: slice :: forall y K :: {elems(chseq(C), chn(C))[y]} elems(chseq(C), chn(C))[y] ==> !elems(F)[y]
  candidate C: chan, E: elt :: !elems(chseq(C), chn(C))[E]
  candidate C: chan, V: set, F: slice :: forall y K :: {has(V, y)} has(V, y) ==> elems(F)[y] || elems(chseq(C), chn(C))[y]
  candidate C: chan, V: set, F: slice, E: elt :: forall y K :: {has(V, y)} has(V, y) ==> elems(F)[y] || elems(chseq(C), chn(C))[y] || y == E
  candidate C: chan, F: slice :: forall i int, j int :: {chseq(C)[i], F[j]} 0 <= i && i < chn(C) && 0 <= j && j < len(F) ==> dist(old(inn(g)), id, chseq(C)[i]) <= dist(old(inn(g)), id, F[j])
  candidate C: chan, E: elt :: forall i int :: {chseq(C)[i]} 0 <= i && i < chn(C) ==> dist(old(inn(g)), id, chseq(C)[i]) <= dist(old(inn(g)), id, E)
  candidate C: chan, V: set :: forall y K, z K :: {mem(old(inn(g)), y, z)} (elems(chseq(C), chn(C))[y] || y == id) && mem(old(inn(g)), y, z) ==> has(V, z)
  candidate V: set, I: iter, E: elt :: forall z K :: {I.done[z]} I.done[z] ==> has(V, z)
  candidate V: set, F: slice :: forall y K :: {reach(old(inn(g)), id, y)} len(F) > 0 && reach(old(inn(g)), id, y) && !has(V, y) ==> dist(old(inn(g)), id, F[0]) < dist(old(inn(g)), id, y)
  candidate V: set, E: elt :: forall y K :: {reach(old(inn(g)), id, y)} reach(old(inn(g)), id, y) && !has(V, y) ==> dist(old(inn(g)), id, E) < dist(old(inn(g)), id, y)

func AcyclicGraph.GetOrderedAncestors(g, id) (res, err)
  tags D07 D08 D10 D11
  requires [inv] Inv(g)
  allocates chan set
  ensures [error] VertexError(g, id, err)
  ensures [none|D07] err != nil ==> len(res) == 0
  ensures [once|D07] err == nil ==> (forall i int, j int :: {res[i], res[j]} 0 <= i && i < j && j < len(res) ==> res[i] != res[j])
  ensures [only|D07] err == nil ==> (forall i int :: {res[i]} 0 <= i && i < len(res) ==> reach(old(inn(g)), id, res[i]))
  ensures [all|D07] err == nil ==> (forall y K :: {reach(old(inn(g)), id, y)} reach(old(inn(g)), id, y) ==> elems(res)[y])
  ensures [order|D07] err == nil ==> (forall i int, j int :: {res[i], res[j]} 0 <= i && i < j && j < len(res) ==> dist(old(inn(g)), id, res[i]) <= dist(old(inn(g)), id, res[j]))
  ensures [new|D10] newslice(res)
  variant C: chan :: finlen(C) - chrcv(C)
  candidate F: slice, C: chan :: chrcv(C) == len(F)
  candidate F: slice, C: chan :: forall i int :: {F[i]} {finseq(C)[i]} 0 <= i && i < len(F) ==> F[i] == finseq(C)[i]
  candidate F: slice, C: chan :: forall i int :: {finseq(C)[i]} 0 <= i && i < len(F) ==> elems(F)[finseq(C)[i]]
  candidate C: chan :: 0 <= chrcv(C) && chrcv(C) <= finlen(C)

func AcyclicGraph.DescendantsWalker(g, id) (ids, signal, err)
  tags D07 D08 D10 D11
  requires [inv] Inv(g)
  allocates chan set
  ensures [error] VertexError(g, id, err)
  ensures [none] err != nil ==> ids == nil && signal == nil
  ensures [served] err == nil ==> served(ids) && chrcv(ids) == 0 && fresh(ids) && fresh(signal)
  ensures [room|D08] err == nil ==> chcap(signal) >= 1
  ensures [list|D07] err == nil ==> Listed(old(out(g)), id, finseq(ids), finlen(ids), finstop(ids))
  delivers [list|D07] Listed(old(out(g)), id, q, n, stop)
  use atgo(cut(old(out(g)), id, elems(q, n), empty()))
  use atgo(distance(old(out(g)), id))
  use atloops(distance(old(out(g)), id))
  variant C: chan :: rcard(old(out(g)), id) - chn(C) using room(old(out(g)), id, chseq(C), chn(C))
  candidate :: Inv(g)
  candidate V: set :: forall y K :: {has(V, y)} has(V, y) ==> reach(old(out(g)), id, y)
  candidate V: set, I: iter :: forall y K :: {has(V, y)} {I.done[y]} has(V, y) <==> I.done[y]
  candidate F: slice, I: iter :: forall y K :: {elems(F)[y]} {I.done[y]} elems(F)[y] <==> I.done[y]
  candidate V: set, F: slice :: forall y K :: {elems(F)[y]} elems(F)[y] ==> has(V, y)
  candidate F: slice :: forall i int, j int :: {F[i], F[j]} 0 <= i && i < j && j < len(F) ==> F[i] != F[j]
  candidate F: slice :: forall i int, j int :: {F[i], F[j]} 0 <= i && i < j && j < len(F) ==> dist(old(out(g)), id, F[i]) <= dist(old(out(g)), id, F[j])
  candidate F: slice :: forall i int :: {F[i]} 0 <= i && i < len(F) ==> dist(old(out(g)), id, F[i]) == 1
  candidate F: slice :: forall i int, j int :: {F[i], F[j]} 0 <= i && i < len(F) && 0 <= j && j < len(F) ==> dist(old(out(g)), id, F[j]) <= dist(old(out(g)), id, F[i]) + 1
  candidate F: slice, E: elt :: forall i int :: {F[i]} 0 <= i && i < len(F) ==> dist(old(out(g)), id, E) <= dist(old(out(g)), id, F[i]) && dist(old(out(g)), id, F[i]) <= dist(old(out(g)), id, E) + 1
  candidate F: slice, E: elt :: !elems(F)[E]
  candidate V: set, E: elt :: has(V, E)
  candidate C: chan :: 0 <= chn(C)
  candidate C: chan :: !chclosed(C)
  candidate C: chan :: forall i int, j int :: {chseq(C)[i], chseq(C)[j]} 0 <= i && i < j && j < chn(C) ==> chseq(C)[i] != chseq(C)[j]
  candidate C: chan :: forall i int, j int :: {chseq(C)[i], chseq(C)[j]} 0 <= i && i < j && j < chn(C) ==> dist(old(out(g)), id, chseq(C)[i]) <= dist(old(out(g)), id, chseq(C)[j])
  candidate C: chan, V: set :: forall y K :: {elems(chseq(C), chn(C))[y]} elems(chseq(C), chn(C))[y] ==> has(V, y)
  candidate C: chan, F: slice :: forall y K :: {elems(chseq(C), chn(C))[y]} elems(chseq(C), chn(C))[y] ==> !elems(F)[y]
  candidate C: chan, E: elt :: !elems(chseq(C), chn(C))[E]
  candidate C: chan, V: set, F: slice :: forall y K :: {has(V, y)} has(V, y) ==> elems(F)[y] || elems(chseq(C), chn(C))[y]
  candidate C: chan, V: set, F: slice, E: elt :: forall y K :: {has(V, y)} has(V, y) ==> elems(F)[y] || elems(chseq(C), chn(C))[y] || y == E
  candidate C: chan, F: slice :: forall i int, j int :: {chseq(C)[i], F[j]} 0 <= i && i < chn(C) && 0 <= j && j < len(F) ==> dist(old(out(g)), id, chseq(C)[i]) <= dist(old(out(g)), id, F[j])
  candidate C: chan, E: elt :: forall i int :: {chseq(C)[i]} 0 <= i && i < chn(C) ==> dist(old(out(g)), id, chseq(C)[i]) <= dist(old(out(g)), id, E)
  candidate C: chan, V: set :: forall y K, z K :: {mem(old(out(g)), y, z)} (elems(chseq(C), chn(C))[y] || y == id) && mem(old(out(g)), y, z) ==> has(V, z)
  candidate V: set, I: iter, E: elt :: forall z K :: {I.done[z]} I.done[z] ==> has(V, z)
  candidate V: set, F: slice :: forall y K :: {reach(old(out(g)), id, y)} len(F) > 0 && reach(old(out(g)), id, y) && !has(V, y) ==> dist(old(out(g)), id, F[0]) < dist(old(out(g)), id, y)
  candidate V: set, E: elt :: forall y K :: {reach(old(out(g)), id, y)} reach(old(out(g)), id, y) && !has(V, y) ==> dist(old(out(g)), id, E) < dist(old(out(g)), id, y)

func AcyclicGraph.GetOrderedDescendants(g, id) (res, err)
  tags D07 D08 D10 D11
  requires [inv] Inv(g)
  allocates chan set
  ensures [error] VertexError(g, id, err)
  ensures [none|D07] err != nil ==> len(res) == 0
  ensures [once|D07] err == nil ==> (forall i int, j int :: {res[i], res[j]} 0 <= i && i < j && j < len(res) ==> res[i] != res[j])
  ensures [only|D07] err == nil ==> (forall i int :: {res[i]} 0 <= i && i < len(res) ==> reach(old(out(g)), id, res[i]))
  ensures [all|D07] err == nil ==> (forall y K :: {reach(old(out(g)), id, y)} reach(old(out(g)), id, y) ==> elems(res)[y])
  ensures [order|D07] err == nil ==> (forall i int, j int :: {res[i], res[j]} 0 <= i && i < j && j < len(res) ==> dist(old(out(g)), id, res[i]) <= dist(old(out(g)), id, res[j]))
  ensures [new|D10] newslice(res)
  variant C: chan :: finlen(C) - chrcv(C)
  candidate F: slice, C: chan :: chrcv(C) == len(F)
  candidate F: slice, C: chan :: forall i int :: {F[i]} {finseq(C)[i]} 0 <= i && i < len(F) ==> F[i] == finseq(C)[i]
  candidate F: slice, C: chan :: forall i int :: {finseq(C)[i]} 0 <= i && i < len(F) ==> elems(F)[finseq(C)[i]]
  candidate C: chan :: 0 <= chrcv(C) && chrcv(C) <= finlen(C)
