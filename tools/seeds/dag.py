T = 'import "testing"\n'
SEEDS = [
 dict(id="d01-own-cache-kept", property="D01", pkg="pkg/dag",
  edits=[("pkg/dag/dag.go", "		delete(g.descendantsCache, ancestor)\n	}\n	delete(g.descendantsCache, sourceID)\n", "		delete(g.descendantsCache, ancestor)\n	}\n")],
  needs="the source of a new edge had its descendants computed before the edge was added, then an edge that closes the cycle through it",
  breaks="AddEdge keeps the cached descendants of the source, so a later edge back to it is not recognised as a loop",
  demo=T+'''
func TestDemo(t *testing.T) {
	g := NewAcyclicGraph[string, int]()
	for i, v := range []string{"a", "b", "c"} {
		_ = g.AddVertex(v, i)
	}
	_ = g.AddEdge("a", "b") // computes the descendants of b
	if err := g.AddEdge("b", "c"); err != nil {
		t.Fatal(err)
	}
	if err := g.AddEdge("c", "b"); err == nil {
		t.Fatal("cycle accepted")
	}
}'''),
 dict(id="d02-last-parent-kept", property="D02", pkg="pkg/dag",
  edits=[("pkg/dag/dag.go", "		for child := range g.outboundEdges[id] {\n			delete(g.inboundEdges[child], id)\n		}\n", "		for child := range g.outboundEdges[id] {\n			if len(g.inboundEdges[child]) > 1 || len(g.outboundEdges[child]) == 0 {\n				delete(g.inboundEdges[child], id)\n			}\n		}\n")],
  needs="deleting a vertex whose child has that vertex as only parent and has children of its own",
  breaks="the child keeps the deleted vertex as a parent",
  demo=T+'''
func TestDemo(t *testing.T) {
	g := NewAcyclicGraph[string, int]()
	for i, v := range []string{"a", "b", "c"} {
		_ = g.AddVertex(v, i)
	}
	_ = g.AddEdge("a", "b")
	_ = g.AddEdge("b", "c")
	_ = g.DeleteVertex("a")
	if ps, _ := g.GetParents("b"); len(ps) != 0 {
		t.Fatal("dangling parent", ps)
	}
}'''),
 dict(id="d03-stale-after-delete", property="D03", pkg="pkg/dag",
  edits=[("pkg/dag/dag.go", "	// For id and all its ancestors, delete cached descendants.\n	for _, ancestor := range ancestors {\n		delete(g.descendantsCache, ancestor)\n	}\n	delete(g.descendantsCache, id)\n", "	// For id and all its parents, delete cached descendants.\n	for _, ancestor := range ancestors {\n		if g.outboundEdges[ancestor].Includes(id) || len(g.outboundEdges[ancestor]) != 1 {\n			delete(g.descendantsCache, ancestor)\n		}\n	}\n	delete(g.descendantsCache, id)\n")],
  needs="a chain of at least three vertices, descendants of the top asked for, then the bottom one deleted and the question asked again",
  breaks="cached descendants of a single-child ancestor survive the deletion of a vertex below it",
  demo=T+'''
func TestDemo(t *testing.T) {
	g := NewAcyclicGraph[string, int]()
	for i, v := range []string{"a", "b", "c"} {
		_ = g.AddVertex(v, i)
	}
	_ = g.AddEdge("a", "b")
	_ = g.AddEdge("b", "c")
	_, _ = g.GetDescendants("a")
	_ = g.DeleteVertex("c")
	if ds, _ := g.GetDescendants("a"); len(ds) != 1 {
		t.Fatal("descendants", ds)
	}
}'''),
 dict(id="d04-failed-edge-leaves-half", property="D04", pkg="pkg/dag",
  edits=[("pkg/dag/dag.go", "	if err := g.checkEdgeIDs(sourceID, targetID); err != nil {\n		return err\n	}\n\n	if isEdge, _ := g.IsEdge(sourceID, targetID); !isEdge {\n		return ErrEdgeNotFound\n	}\n", "	if err := g.checkEdgeIDs(sourceID, targetID); err != nil {\n		return err\n	}\n\n	// Inbound edges tell whether the edge exists.\n	parents := g.inboundEdges[targetID]\n	if before := len(parents); before == 0 {\n		return ErrEdgeNotFound\n	} else if parents.Delete(sourceID); len(parents) == before {\n		parents.Delete(targetID)\n		if before == 1 {\n			for p := range parents {\n				g.outboundEdges[p].Delete(targetID)\n			}\n		}\n		return ErrEdgeNotFound\n	}\n")],
  needs="deleting an edge that does not exist into a vertex that has exactly one parent",
  breaks="the failing DeleteEdge removes the forward half of another edge",
  demo=T+'''
func TestDemo(t *testing.T) {
	g := NewAcyclicGraph[string, int]()
	for i, v := range []string{"a", "b", "c"} {
		_ = g.AddVertex(v, i)
	}
	_ = g.AddEdge("a", "c")
	if err := g.DeleteEdge("b", "c"); err != ErrEdgeNotFound {
		t.Fatal(err)
	}
	if ok, _ := g.IsEdge("a", "c"); !ok {
		t.Fatal("edge a->c vanished")
	}
}'''),
 dict(id="d05-roots-after-deletion", property="D05", pkg="pkg/dag",
  edits=[("pkg/dag/dag.go", "		if sourceIDs, ok := g.inboundEdges[k]; !ok || len(sourceIDs) == 0 {\n", "		if _, ok := g.inboundEdges[k]; !ok {\n")],
  needs="a vertex whose last incoming edge was deleted",
  breaks="such a vertex is no longer reported as a root",
  demo=T+'''
func TestDemo(t *testing.T) {
	g := NewAcyclicGraph[string, int]()
	_ = g.AddVertex("a", 1)
	_ = g.AddVertex("b", 2)
	_ = g.AddEdge("a", "b")
	_ = g.DeleteEdge("a", "b")
	if r := g.GetRoots(); len(r) != 2 {
		t.Fatal("roots", r)
	}
}'''),
 dict(id="d06-reduce-stale-cache", property="D06", pkg="pkg/dag",
  edits=[("pkg/dag/dag.go", "	for id := range g.vertices {\n		childrenDescendants := make(Set[K])\n", "	for id := range g.vertices {\n		if len(g.outboundEdges[id]) > 2 && len(g.inboundEdges[id]) > 0 {\n			continue\n		}\n		childrenDescendants := make(Set[K])\n")],
  needs="an inner vertex with at least three children, one of them reachable through another",
  breaks="redundant edges of such vertices survive the reduction",
  demo=T+'''
func TestDemo(t *testing.T) {
	g := NewAcyclicGraph[string, int]()
	for i, v := range []string{"r", "a", "b", "c", "d"} {
		_ = g.AddVertex(v, i)
	}
	for _, e := range [][2]string{{"r", "a"}, {"a", "b"}, {"a", "c"}, {"a", "d"}, {"b", "d"}} {
		_ = g.AddEdge(e[0], e[1])
	}
	g.ReduceTransitively()
	if ok, _ := g.IsEdge("a", "d"); ok {
		t.Fatal("redundant edge kept")
	}
}'''),
 dict(id="d09-copy-of-empty", property="D09", pkg="pkg/dag",
  edits=[("pkg/dag/set.go", "	if other == nil || len(other) == 0 {\n		return s.Copy()\n	}\n", "	if len(other) == 0 && s != nil {\n		return s\n	}\n")],
  needs="the difference with an empty set, and a later change of one of the two sets",
  breaks="the difference with an empty set is the operand itself",
  demo=T+'''
func TestDemo(t *testing.T) {
	s := Set[string]{"a": "a"}
	d := s.Difference(Set[string]{})
	d.Add("b")
	if s.Includes("b") {
		t.Fatal("operand changed")
	}
}'''),
 dict(id="d10-children-share", property="D10", pkg="pkg/dag",
  edits=[("pkg/dag/dag.go", "func (g *AcyclicGraph[K, T]) GetVertices() map[K]T {\n	return copyMap(g.vertices)\n}", "func (g *AcyclicGraph[K, T]) GetVertices() map[K]T {\n	if len(g.outboundEdges) == 0 {\n		return g.vertices\n	}\n\n	return copyMap(g.vertices)\n}")],
  needs="the vertices of a graph that never had an edge, and a later change",
  breaks="the returned map is the graph's own",
  demo=T+'''
func TestDemo(t *testing.T) {
	g := NewAcyclicGraph[string, int]()
	_ = g.AddVertex("a", 1)
	vs := g.GetVertices()
	delete(vs, "a")
	if g.GetOrder() != 1 {
		t.Fatal("graph changed")
	}
}'''),
 dict(id="d07-late-mark", property="D07", pkg="pkg/dag",
  edits=[("pkg/dag/dag.go", "		for child := range g.outboundEdges[top] {\n			if !visited.Includes(child) {\n				visited.Add(child)\n				fifo = append(fifo, child)\n			}\n		}\n", "		visited.Add(top)\n		for child := range g.outboundEdges[top] {\n			if !visited.Includes(child) {\n				if len(g.inboundEdges[child]) < 3 {\n					visited.Add(child)\n				}\n				fifo = append(fifo, child)\n			}\n		}\n")],
  needs="a descendant with at least three parents, two of which are walked before it",
  breaks="that descendant is delivered more than once",
  demo=T+'''
func TestDemo(t *testing.T) {
	g := NewAcyclicGraph[string, int]()
	for i, v := range []string{"r", "a", "b", "c", "d"} {
		_ = g.AddVertex(v, i)
	}
	for _, p := range []string{"a", "b", "c"} {
		_ = g.AddEdge("r", p)
		_ = g.AddEdge(p, "d")
	}
	ds, _ := g.GetOrderedDescendants("r")
	if len(ds) != 4 {
		t.Fatal(ds)
	}
}'''),
 dict(id="d08-blocking-probe", property="D08", pkg="pkg/dag",
  edits=[("pkg/dag/dag.go", "		select {\n		case <-signal:\n			return\n		default:\n		}\n\n		select {\n		case <-signal:\n			return\n		case ids <- top:\n		}\n	}\n}\n\n// DescendantsWalker", "		select {\n		case <-signal:\n			return\n		default:\n		}\n\n		if len(fifo) == 0 {\n			ids <- top // the last one\n			return\n		}\n\n		select {\n		case <-signal:\n			return\n		case ids <- top:\n		}\n	}\n}\n\n// DescendantsWalker")],
  needs="a stop request sent while the walker is about to deliver the last ancestor, whose delivery nobody takes",
  breaks="the walker blocks for ever on the last delivery and never closes the channel",
  demo='''import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	g := NewAcyclicGraph[string, int]()
	_ = g.AddVertex("a", 1)
	_ = g.AddVertex("b", 2)
	_ = g.AddEdge("a", "b")
	for i := 0; i < 20; i++ {
		ids, signal, _ := g.AncestorsWalker("b")
		time.Sleep(2 * time.Millisecond) // the walker now offers a
		signal <- true
		time.Sleep(20 * time.Millisecond)
		select {
		case _, ok := <-ids:
			if ok {
				t.Fatal("delivered after the stop request")
			}
		case <-time.After(2 * time.Second):
			t.Fatal("hang")
		}
	}
}'''),
 dict(id="d08-stop-without-room", property="D08", pkg="pkg/dag",
  edits=[("pkg/dag/dag.go", "	signal := make(chan bool, 1)\n\n	go func() {\n		g.walkDescendants", "	signal := make(chan bool)\n\n	go func() {\n		g.walkDescendants")],
  needs="a stop request sent when the walk is over already",
  breaks="the caller hangs on its stop request",
  demo="""import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	g := NewAcyclicGraph[string, int]()
	_ = g.AddVertex("a", 1)
	_ = g.AddVertex("b", 2)
	_ = g.AddEdge("a", "b")
	ids, signal, _ := g.DescendantsWalker("a")
	for range ids {
	}
	select {
	case signal <- true:
	case <-time.After(2 * time.Second):
		t.Fatal("hang")
	}
}"""),
 dict(id="d08-open-after-root", property="D08", pkg="pkg/dag",
  edits=[("pkg/dag/dag.go", "		g.walkAncestors(id, ids, signal)\n		close(ids)\n", "		if len(g.inboundEdges) > 0 {\n			g.walkAncestors(id, ids, signal)\n			close(ids)\n		}\n")],
  needs="a walk over the ancestors of a vertex in a graph that never had an edge",
  breaks="the delivery channel is never closed",
  demo="""import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	g := NewAcyclicGraph[string, int]()
	_ = g.AddVertex("a", 1)
	ids, _, _ := g.AncestorsWalker("a")
	select {
	case <-ids:
	case <-time.After(2 * time.Second):
		t.Fatal("hang")
	}
}"""),
 dict(id="d07-leaves-first", property="D07", pkg="pkg/dag",
  edits=[("pkg/dag/dag.go", "				visited.Add(child)\n				fifo = append(fifo, child)\n", "				visited.Add(child)\n				if len(g.outboundEdges[child]) == 0 && len(fifo) > 0 {\n					fifo = append([]K{child}, fifo...) // nothing below it: get it out of the way\n\n					continue\n				}\n				fifo = append(fifo, child)\n")],
  needs="a leaf at distance two while vertices at distance one are still waiting",
  breaks="the leaf is delivered before nearer vertices",
  demo=T+"""
func TestDemo(t *testing.T) {
	g := NewAcyclicGraph[string, int]()
	for i, v := range []string{"r", "a", "b", "x", "y"} {
		_ = g.AddVertex(v, i)
	}
	_ = g.AddEdge("r", "a")
	_ = g.AddEdge("r", "b")
	_ = g.AddEdge("a", "x")
	_ = g.AddEdge("b", "y")
	ds, _ := g.GetOrderedDescendants("r")
	if len(ds) != 4 {
		t.Fatal(ds)
	}
	for _, d := range ds[:2] {
		if d != "a" && d != "b" {
			t.Fatal(ds)
		}
	}
}"""),
 dict(id="d07-cached-listing", property="D07", pkg="pkg/dag",
  edits=[("pkg/dag/dag.go", "	ids, _, _ := g.AncestorsWalker(id)\n\n	var ancestors []K\n", "	if cache, exists := g.ancestorsCache[id]; exists {\n		return cache.List(), nil\n	}\n\n	ids, _, _ := g.AncestorsWalker(id)\n\n	var ancestors []K\n")],
  needs="an ordered listing of ancestors that an earlier query has cached",
  breaks="the listing is in no order",
  demo=T+"""
func TestDemo(t *testing.T) {
	g := NewAcyclicGraph[int, int]()
	for i := 1; i <= 30; i++ {
		_ = g.AddVertex(i, i)
		if i > 1 {
			_ = g.AddEdge(i-1, i)
		}
	}
	_, _ = g.GetAncestors(30)
	as, _ := g.GetOrderedAncestors(30)
	if len(as) != 29 {
		t.Fatal(as)
	}
	for i, a := range as {
		if a != 29-i {
			t.Fatal(as)
		}
	}
}"""),
 dict(id="d11-goodbye", property="D11", pkg="pkg/dag",
  edits=[("pkg/dag/dag.go", "		g.walkDescendants(id, ids, signal)\n		close(ids)\n", "		g.walkDescendants(id, ids, signal)\n		close(ids)\n\n		if len(g.outboundEdges[id]) > 0 {\n			<-signal // whoever still asks must not wait\n		}\n")],
  needs="a walk that is consumed to its end by a caller who has no reason to ask for a stop",
  breaks="the goroutine of every finished walk stays blocked for ever",
  demo="""import (
	"runtime"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	g := NewAcyclicGraph[string, int]()
	_ = g.AddVertex("a", 1)
	_ = g.AddVertex("b", 2)
	_ = g.AddEdge("a", "b")
	before := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		ids, _, _ := g.DescendantsWalker("a")
		for range ids {
		}
	}
	time.Sleep(200 * time.Millisecond)
	if n := runtime.NumGoroutine(); n > before+10 {
		t.Fatal(n-before, "goroutines left")
	}
}"""),
 dict(id="d11-requeue", property="D11", pkg="pkg/dag",
  edits=[("pkg/dag/dag.go", "		top := fifo[0]\n		fifo = fifo[1:]\n\n		for parent := range", "		top := fifo[0]\n		fifo = fifo[1:]\n\n		if len(fifo) > 0 && !g.settled(top, id, visited) {\n			fifo = append(fifo, top) // something below it is still to come\n\n			continue\n		}\n\n		for parent := range"),
         ("pkg/dag/dag.go", "// DescendantsWalker returns a channel", "func (g *AcyclicGraph[K, T]) settled(id, start K, seen Set[K]) bool {\n	for child := range g.outboundEdges[id] {\n		if child != start && !seen.Includes(child) {\n			return false\n		}\n	}\n\n	return true\n}\n\n// DescendantsWalker returns a channel")],
  needs="two ancestors waiting together that both have a child outside the walk",
  breaks="the walker puts one behind the other for ever and never delivers nor ends",
  demo="""import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	g := NewAcyclicGraph[string, int]()
	for i, v := range []string{"p", "q", "x", "c"} {
		_ = g.AddVertex(v, i)
	}
	for _, e := range [][2]string{{"p", "x"}, {"q", "x"}, {"p", "c"}, {"q", "c"}} {
		_ = g.AddEdge(e[0], e[1])
	}
	done := make(chan int, 1)
	go func() {
		ids, _ := g.GetOrderedAncestors("x")
		done <- len(ids)
	}()
	select {
	case n := <-done:
		if n != 2 {
			t.Fatal(n)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("hang")
	}
}"""),
]
