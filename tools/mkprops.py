#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to review)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
DAG="pkg/dag/dag.go"; SET="pkg/dag/set.go"
st=[("vertices","the vertex table","AcyclicGraph.vertices"),
    ("inboundEdges/outboundEdges","the edge relation, stored twice (by target and by source)","AcyclicGraph"),
    ("ancestorsCache/descendantsCache","memoised transitive closures","AcyclicGraph")]
p("D01","The graph never contains a cycle",
  "However the graph was built, no vertex is ever its own ancestor or descendant. Adding an edge is refused as a loop exactly when the source is already reachable from the target, and every other edge between two distinct known vertices that are not yet directly connected is accepted.",
  ["histories","inputs"],"all sequences of public operations, all vertex identifiers and types, graphs of any size",
  "A loop can go through any number of vertices and depends on the whole operation history (and on the memoised closures it left behind); the tests use a few fixed graphs.",
  [DAG],[("AddEdge","loop check on the memoised descendants of the target"),("getDescendantsIDs","memoised closure the loop check relies on")],st,["AddEdge","GetDescendants","GetAncestors"])
p("D02","Edges are consistent from both ends and never dangle",
  "After any sequence of operations, a vertex is listed among another's children exactly when the other is listed among its parents, and both ends of every edge are vertices of the graph. Deleting a vertex removes every edge that touches it and no other edge.",
  ["histories","inputs"],"all sequences of public operations on graphs of any size",
  "The relation is stored twice and each mutator must keep both copies in step for every shape of graph; tests look at a handful of graphs.",
  [DAG],[("AddEdge/DeleteEdge/DeleteVertex/ReduceTransitively","update both edge tables")],st,["GetParents","GetChildren","IsEdge"])
p("D03","Ancestor and descendant queries are exact under any history",
  "At every moment the ancestors reported for a vertex are exactly the vertices from which it can be reached along the current edges, and the descendants exactly those reachable from it, each with its current value. Which queries were asked earlier, and which edges or vertices were added or removed in between, makes no difference to the answer.",
  ["histories","inputs"],"all interleavings of queries and mutations, all graphs",
  "Answers are memoised and selectively invalidated; a missed invalidation only shows for particular query/mutation orders on particular graphs.",
  [DAG],[("getAncestorsIDs/getDescendantsIDs","memoised recursion"),("AddEdge/DeleteEdge/DeleteVertex","cache invalidation"),("flushCaches","cache reset")],st,["GetAncestors","GetDescendants"])
p("D04","Mutations do exactly what they promise, and failures change nothing",
  "Adding or deleting a vertex or an edge changes exactly that vertex or edge (and, for a deleted vertex, its incident edges) and nothing else. Empty, unknown, duplicate or identical identifiers, missing edges and loops are each reported with their own documented error, and whenever an operation reports an error every later answer of the graph is as if it had not been called.",
  ["histories","inputs"],"all operations, arguments and prior states",
  "The full before/after relation, including what must not change, ranges over all graphs and arguments; tests check a few fields in a few cases.",
  [DAG],[("AddVertex/DeleteVertex/AddEdge/DeleteEdge","mutators"),("checkVertexID/checkEdgeIDs","argument validation")],st,["return values","all queries"])
p("D05","Direct graph queries are exact",
  "The reported vertices, value of a vertex, parents, children, roots, leaves, edge test, number of vertices and number of edges are exactly those of the current graph: every qualifying item with its current value, and nothing else. Queries about empty or unknown identifiers return the documented error and no result.",
  ["histories","inputs"],"all graphs reachable by any history, all identifiers",
  "Exactness of a result set (nothing missing, nothing extra) over graphs of any size cannot be enumerated.",
  [DAG],[("GetRoots/GetLeaves/GetParents/GetChildren/GetVertices/GetVertex/IsEdge/GetOrder/GetSize","queries")],st,["query results"])
p("D06","Transitive reduction keeps reachability and drops only redundant edges",
  "Reducing the graph removes exactly the direct edges for which a longer path exists, so every pair of vertices is connected by a path afterwards exactly when it was before. Vertices are untouched and all later queries answer for the reduced graph.",
  ["histories","inputs"],"all acyclic graphs, all map iteration orders, all prior queries",
  "Depends on the whole graph, on iteration order while edges are being deleted, and on what was memoised before; tests reduce one or two small graphs.",
  [DAG],[("ReduceTransitively","reduction loop over the closure")],st,["GetSize","IsEdge","GetDescendants"])
p("D07","Ordered walks visit every relative exactly once, nearest first",
  "An ordered ancestor or descendant listing, or a walk that is not stopped, yields every ancestor (descendant) of the start vertex exactly once and nothing else, in order of non-decreasing distance from the start. A walk that is stopped early has delivered a prefix of such an ordering.",
  ["histories","inputs","schedules"],"all acyclic graphs, start vertices and iteration orders",
  "Breadth-first order and exactly-once delivery must hold for every graph shape (diamonds, different path lengths) and every map iteration order.",
  [DAG],[("walkAncestors/walkDescendants","breadth-first queue with a visited set"),("AncestorsWalker/DescendantsWalker","producer goroutine"),("GetOrderedAncestors/GetOrderedDescendants","collect the walk")],st,["walker channel","ordered listings"])
p("D08","A walk can be stopped at any time without panic or hang",
  "A walker never closes or sends on the channel through which the caller asks it to stop, so asking is safe at any moment, even after the walk has finished. Whenever the walker would block delivering an identifier it is also listening for the stop request, once it has seen the request it delivers nothing more, and in every case it closes the delivery channel exactly once when it is done.",
  ["schedules","histories"],"all interleavings of consumer and walker, all graphs",
  "Whether the stop request arrives before, during or after a delivery is a scheduling question; the tests never race the two.",
  [DAG],[("walkAncestors/walkDescendants","select between delivery and stop"),("AncestorsWalker/DescendantsWalker","channel ownership")],st,["walker channels"])
p("D09","Set operations are exact and leave their operands alone",
  "Membership, insertion, removal, intersection, difference, filtering, listing and copying of sets return exactly the mathematical result for all operands, including empty and nil ones (an insertion needs a non-nil set). No operand is ever modified by computing a result, and every resulting set is a new one that shares no storage with the operands.",
  ["inputs"],"all pairs of sets over any comparable element type",
  "Ranges over all sets and both size orders of the operands; tests use a few literals.",
  [SET],[("Set methods","map based set algebra")],(),["return values"])
p("D10","Query results are snapshots and queries do not disturb the graph",
  "Collections returned by the graph belong to the caller: changing them never changes the graph, and later changes to the graph never change them. Asking any query leaves every observable aspect of the graph (vertices, values, edges) exactly as it was.",
  ["histories","inputs"],"all queries on all graphs",
  "Aliasing shows only when a caller later writes to a result or to the graph; tests never do.",
  [DAG,SET],[("copyMap/loadFromCache","results are copied out of internal tables")],st,["returned maps and slices"])
p("D11","Every graph operation returns and every walk ends",
  "Every operation on a graph or a set returns, whatever the graph's shape and history. Every walk whose identifiers are consumed, or which has been asked to stop, ends: its delivery channel is closed and its goroutine exits, so an ordered listing always returns.",
  ["histories","schedules","inputs"],"all graphs reachable by any history, all interleavings of consumer and walker",
  "Whether a loop or a recursion ends depends on the graph being finite and acyclic and on nothing ever being queued twice without bound; a goroutine that waits for ever shows up in no result a test looks at.",
  [DAG,SET],[("getAncestorsIDs/getDescendantsIDs","recursion along the edges"),("walkAncestors/walkDescendants","queue of the walk"),("GetOrderedAncestors/GetOrderedDescendants","receive until closed"),("all methods","loops over tables")],st,["return of every call","goroutines"])
E="pkg/etx/"
AF=[E+f for f in ("ast.go","attribute.go","block.go","comment.go","decl.go","expr.go","func.go","ident.go","lambda.go","type.go","value.go","utils.go")]
p("E01","Cloning a syntax tree is faithful",
  "A clone of any syntax tree node has the same kind, position, text, flags, numbers and sub-nodes, recursively and in the same order, as the original; absent parts stay absent and present ones present (only the link to the parent is not copied). Cloning an absent node yields an absent node.",
  ["inputs","programs"],"all syntax trees, of any depth and width",
  "Trees are unbounded and there are about forty node kinds; a dropped or swapped field shows only when that field is set.",
  AF,[("Clone methods","per node kind"),("cloneCollection/cloneStrings","list copies")],(),["Clone"])
p("E02","A clone shares no mutable part with the original",
  "No node, list or number reachable from a clone is reachable from the original, so changing either tree never changes the other.",
  ["inputs","programs"],"all syntax trees",
  "Sharing is invisible until somebody mutates; the tests' non-sharing assertion does not look at the clone at all.",
  AF,[("Clone methods","allocate every pointer and slice anew")],(),["Clone"])
p("E03","Every node reports exactly its sub-nodes, in source order",
  "For every tree the parser can produce, the children reported by a node are exactly its present sub-nodes (a part held by value counts as present), each exactly once and in the order they appear in the source. Walking the children from the root therefore visits every node of the tree exactly once.",
  ["inputs","programs"],"all nodes of all parsed trees",
  "Forgetting one optional field of one node kind only shows on sources using that construct; tests cover few combinations.",
  AF,[("Children methods","per node kind")],(),["Children"])
p("E04","Parent links form the tree",
  "After a successful parse, or after the parent links of a tree have been refreshed, every node's parent is the node that lists it as a child, and nodes at the top level have no parent. Refreshing parent links changes nothing else in the tree.",
  ["inputs","programs"],"all parsed trees",
  "Requires following every construct of the language to any depth; tests inspect a few links.",
  [E+"parser.go",E+"ast.go"]+AF,[("updateParentRefs","recursive walk over Children")],[("Parent","link to the enclosing node","ASTNode.Parent")],["Parent"])
p("E05","Formatting never fails on a parsed tree",
  "Formatting any tree the parser can produce returns a text; it never panics, whatever constructs, comments, blank lines or absent optional parts the tree contains.",
  ["inputs","programs"],"all parsed trees",
  "Formatters panic on shapes they consider impossible; whether a parsed tree can have such a shape depends on the whole grammar.",
  AF,[("FormattedString methods","per node kind")],(),["FormattedString"])
p("E06","Formatting writes out every part of a tree, exactly once and in order",
  "The text produced for a node consists of the texts of all its present parts, each exactly once, in source order, joined by the construct's keywords, operators and punctuation; operands, branches, parameters, labels, items, comments and blank lines are never dropped, duplicated, swapped or altered. Nested bodies are indented by one tab per level.",
  ["inputs","programs"],"all parsed trees",
  "All combinations of optional parts over unbounded trees; tests fix a few outputs per construct.",
  AF,[("FormattedString methods","per node kind")],(),["FormattedString"])
p("E07","Reading a tree does not change it",
  "Cloning, listing children and formatting never modify the tree they are given, nor anything reachable from it.",
  ["inputs","programs"],"all trees, all read-only operations",
  "An accidental write through a shared slice or pointer shows only if the tree is compared afterwards; tests rarely do.",
  AF,[("Clone/Children/FormattedString","read-only methods")],(),["tree before/after"])
p("E08","Number literals keep their spelling; leading-zero literals become octal",
  "Capturing a number token keeps its text exactly, except that a literal of a leading zero followed only by digits and underscores is rewritten with the octal prefix, digits unchanged; capturing the rewritten text again changes nothing. The stored number is the parse of that text, an unparsable token is reported as an error, and formatting a captured number prints exactly the stored text.",
  ["inputs"],"all number tokens",
  "Ranges over all digit strings; tests sample some.",
  [E+"value.go"],[("ValueNumber.Capture","regular expression based rewrite"),("ValueNumber.FormattedString","prints the stored text")],(),["Capture","FormattedString"])
p("E09","Heredoc delimiters survive capture and formatting",
  "Capturing any heredoc opening token the lexer can produce never panics, records exactly the delimiter word and whether the dash was present, and formatting the captured delimiter gives back the token's text between the opening marker and the line end.",
  ["inputs"],"all heredoc opening tokens",
  "Ranges over all delimiter words; tests use EOF.",
  [E+"value.go",E+"lexer.go"],[("HeredocDelimiter.Capture","regular expression"),("HeredocDelimiter.FormattedString","dash and word"),("lexRules","the token's pattern")],(),["Capture","FormattedString"])
p("E10","Indentation touches only line starts",
  "Indenting a text inserts the prefix at the start of every non-empty line and changes nothing else: empty lines stay empty, line breaks and all other bytes are kept in order.",
  ["inputs"],"all texts and prefixes",
  "Ranges over all byte strings; tests use a table.",
  [E+"utils.go"],[("indentBytes","byte loop with a beginning-of-line flag")],(),["indent"])
p("E11","All parse entry points behave alike",
  "Parsing from a reader, a string or bytes accepts the same sources, applies the same grammar and returns the same tree with parent links set. On failure each returns no tree and an error that wraps the parser's error.",
  ["inputs","programs"],"all sources",
  "A difference between the entry points shows only on inputs that exercise it; tests mostly use one of them.",
  [E+"parser.go"],[("Parse/ParseString/ParseBytes","three copies of the same sequence")],(),["Parse","ParseString","ParseBytes"])
p("E12","No operator token is shadowed by a shorter or more general one",
  "Every operator and punctuation mark of the language, written in source code, is recognised as itself: no earlier lexer rule matches a proper prefix of it. Keywords are tried before identifiers and comments before the division operator.",
  ["inputs","programs"],"all operators of the language and whatever follows them",
  "Rules are tried in order, so one misplaced rule silently splits or hides an operator; no test covers every pair.",
  [E+"lexer.go"],[("lexRules","ordered rule table")],(),["token stream"])
p("N01","Formatting then re-parsing gives back the same tree",
  "Parsing the formatted text of any parsed tree yields an equal tree, and formatting is idempotent.",
  ["inputs","programs"],"all sources","Ranges over all programs.",
  [E+"parser.go"]+AF,[("participle grammar in struct tags","struct tags")],(),["FormattedString","Parse"])
p("N02","Operators bind with the documented precedence",
  "Every expression is parsed with the documented precedence and every documented construct is accepted.",
  ["inputs","programs"],"all sources","Ranges over all programs.",
  [E+"expr.go"],[("participle grammar in struct tags","struct tags")],(),["Parse"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
