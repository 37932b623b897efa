package dag

// Looks for a failing input of one property against the real code: histories
// of operations compared with a direct computation.  Run by check.py when a
// proof obligation fails.

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
)

type vop struct {
	k    string
	a, b int
}

func (o vop) String() string { return fmt.Sprintf("%s(%d,%d)", o.k, o.a, o.b) }

type fail struct{ msg string }

type world[K comparable] struct {
	g     *AcyclicGraph[K, int]
	key   func(int) K // 0 is the zero key
	verts map[K]int
	edges map[[2]K]bool
	n     int // counter for values
	prop  string
	out   int
	snaps []snap[K]
}

type snap[K comparable] struct {
	m    map[K]int
	copy map[K]int
	what string
}

func (w *world[K]) fail(f string, a ...any) { panic(fail{fmt.Sprintf(f, a...)}) }

// reach along the edges of the model.
func (w *world[K]) reach(x K, fwd bool) map[K]int {
	d := map[K]int{}
	q := []K{x}
	dist := map[K]int{x: 0}
	for len(q) > 0 {
		t := q[0]
		q = q[1:]
		for e := range w.edges {
			f, s := e[0], e[1]
			if !fwd {
				f, s = s, f
			}
			if f == t {
				if _, ok := d[s]; !ok {
					d[s] = dist[t] + 1
					if _, ok := dist[s]; !ok {
						dist[s] = dist[t] + 1
					}
					q = append(q, s)
				}
			}
		}
	}
	return d
}

// observe rebuilds the model from what the graph itself reports.
func (w *world[K]) observe() {
	w.verts = w.g.GetVertices()
	w.edges = map[[2]K]bool{}
	for v := range w.verts {
		cs, _ := w.g.GetChildren(v)
		for c := range cs {
			w.edges[[2]K{v, c}] = true
		}
	}
}

func eqMap[K comparable](a, b map[K]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if x, ok := b[k]; !ok || x != v {
			return false
		}
	}
	return true
}

func (w *world[K]) checkWalk(what string, got []K, x K, fwd, partial bool) {
	want := w.reach(x, fwd)
	seen := map[K]bool{}
	last := 0
	for _, k := range got {
		d, ok := want[k]
		if !ok {
			w.fail("%s of %v yielded %v, which is not a relative", what, x, k)
		}
		if seen[k] {
			w.fail("%s of %v yielded %v twice", what, x, k)
		}
		seen[k] = true
		if d < last {
			w.fail("%s of %v yielded %v at distance %d after one at distance %d", what, x, k, d, last)
		}
		last = d
	}
	if !partial && len(seen) != len(want) {
		w.fail("%s of %v yielded %v, want all of %v", what, x, got, want)
	}
	if partial {
		for k, d := range want {
			if d < last && !seen[k] {
				w.fail("%s of %v, stopped early, skipped the nearer %v: %v", what, x, k, got)
			}
		}
	}
}

func (w *world[K]) walker(x K, fwd bool) (chan K, chan bool, error) {
	if fwd {
		return w.g.DescendantsWalker(x)
	}
	return w.g.AncestorsWalker(x)
}

// collect receives everything, with a time limit.
func (w *world[K]) collect(what string, ids chan K, max int) (got []K, closed bool) {
	for max < 0 || len(got) < max {
		select {
		case k, ok := <-ids:
			if !ok {
				return got, true
			}
			got = append(got, k)
			if len(got) > 1000 {
				w.fail("%s does not end", what)
			}
		case <-time.After(3 * time.Second):
			w.fail("%s hangs: nothing delivered and the channel is not closed after 3 s; delivered %v", what, got)
		}
	}
	return got, false
}

// ended starts a walk that is consumed or stopped, and waits for its end.
func (w *world[K]) ended(o vop) string {
	a := w.key(o.a)
	ids, signal, err := w.walker(a, o.b%2 == 0)
	if err != nil {
		return ""
	}
	n := o.b / 4 % 4
	if o.b/2%2 == 0 {
		n = -1
	}
	for i := 0; i != n; i++ {
		select {
		case _, ok := <-ids:
			if !ok {
				return ""
			}
		case <-time.After(3 * time.Second):
			return fmt.Sprintf("the walk of %v neither delivers nor ends after %d vertices", a, i)
		}
	}
	select {
	case signal <- true:
	case <-time.After(3 * time.Second):
		return fmt.Sprintf("the walk of %v cannot be asked to stop after %d vertices", a, n)
	}
	return ""
}

func (w *world[K]) step(o vop) {
	a, b := w.key(o.a), w.key(o.b)
	g := w.g
	var zero K
	p := w.prop
	_, ka := w.verts[a]
	_, kb := w.verts[b]
	if p == "D01" || p == "D02" {
		w.observe()
		_, ka = w.verts[a]
		_, kb = w.verts[b]
	}
	switch o.k {
	case "AddVertex":
		w.n++
		err := g.AddVertex(a, w.n)
		var want error
		if a == zero {
			want = ErrVertexIDEmpty
		} else if ka {
			want = ErrVertexDuplicate
		}
		if p == "D04" && err != want {
			w.fail("AddVertex(%v) = %v, want %v", a, err, want)
		}
		if want == nil {
			w.verts[a] = w.n
		}
	case "DeleteVertex":
		err := g.DeleteVertex(a)
		var want error
		if a == zero {
			want = ErrVertexIDEmpty
		} else if !ka {
			want = ErrVertexNotFound
		}
		if p == "D04" && err != want {
			w.fail("DeleteVertex(%v) = %v, want %v", a, err, want)
		}
		if want == nil {
			delete(w.verts, a)
			for e := range w.edges {
				if e[0] == a || e[1] == a {
					delete(w.edges, e)
				}
			}
		}
		if p == "D02" {
			old := w.edges
			w.observe()
			if !reflect.DeepEqual(old, w.edges) {
				w.fail("after DeleteVertex(%v) the edges are %v, want %v", a, w.edges, old)
			}
		}
	case "AddEdge", "DeleteEdge":
		var want error
		switch {
		case a == zero:
			want = ErrEdgeSourceIDEmpty
		case b == zero:
			want = ErrEdgeTargetIDEmpty
		case a == b:
			want = ErrEdgeSourceTargetIdentical
		case !ka:
			want = ErrEdgeSourceIDNotFound
		case !kb:
			want = ErrEdgeTargetIDNotFound
		}
		ok := want == nil
		var err error
		if o.k == "AddEdge" {
			_, loop := w.reach(b, true)[a]
			if ok && w.edges[[2]K{a, b}] {
				want = ErrEdgeDuplicate
			} else if ok && loop {
				want = ErrEdgeLoop
			}
			err = g.AddEdge(a, b)
			if p == "D01" && ok && !w.edges[[2]K{a, b}] {
				if errors.Is(err, ErrEdgeLoop) != loop {
					w.fail("AddEdge(%v, %v) = %v, but %v is reachable from %v: %v", a, b, err, a, b, loop)
				}
				if !loop && err != nil {
					w.fail("AddEdge(%v, %v) refused: %v", a, b, err)
				}
			}
			if want == nil {
				w.edges[[2]K{a, b}] = true
			}
		} else {
			if ok && !w.edges[[2]K{a, b}] {
				want = ErrEdgeNotFound
			}
			err = g.DeleteEdge(a, b)
			if want == nil {
				delete(w.edges, [2]K{a, b})
			}
		}
		if p == "D04" {
			if (err == nil) != (want == nil) {
				w.fail("%s(%v, %v) = %v, want %v", o.k, a, b, err, want)
			}
			// more than one of the documented errors can apply to the identifiers
			if err != nil && err != want {
				app := map[error]bool{ErrEdgeSourceIDEmpty: a == zero, ErrEdgeTargetIDEmpty: b == zero, ErrEdgeSourceTargetIdentical: a == b,
					ErrEdgeSourceIDNotFound: a != zero && !ka, ErrEdgeTargetIDNotFound: b != zero && !kb}
				if !app[err] {
					w.fail("%s(%v, %v) = %v, want %v", o.k, a, b, err, want)
				}
			}
		}
	case "Reduce":
		g.ReduceTransitively()
		del := [][2]K{}
		for e := range w.edges {
			for f := range w.edges {
				if f[0] == e[0] && f[1] != e[1] {
					if _, ok := w.reach(f[1], true)[e[1]]; ok {
						del = append(del, e)
						break
					}
				}
			}
		}
		for _, e := range del {
			delete(w.edges, e)
		}
	case "Ancestors", "Descendants":
		fwd := o.k == "Descendants"
		f := g.GetAncestors
		if fwd {
			f = g.GetDescendants
		}
		got, err := f(a)
		if p == "D01" {
			if _, ok := got[a]; ok {
				w.fail("%s(%v) contains %v itself", o.k, a, a)
			}
		}
		if p == "D03" || p == "D06" {
			if a == zero || !ka {
				if err == nil || got != nil {
					w.fail("%s(%v) = %v, %v for an unknown vertex", o.k, a, got, err)
				}
				return
			}
			want := map[K]int{}
			for k := range w.reach(a, fwd) {
				want[k] = w.verts[k]
			}
			if err != nil || !eqMap(got, want) {
				w.fail("Get%s(%v) = %v, %v, want %v", o.k, a, got, err, want)
			}
		}
		if p == "D10" && got != nil {
			w.disturb(got, "Get"+o.k)
		}
	case "Ordered":
		fwd := o.b%2 == 0
		f := g.GetOrderedAncestors
		if fwd {
			f = g.GetOrderedDescendants
		}
		got, err := f(a)
		if p == "D07" {
			if a == zero || !ka {
				if err == nil {
					w.fail("ordered listing of unknown %v: no error", a)
				}
				return
			}
			if err != nil {
				w.fail("ordered listing of %v: %v", a, err)
			}
			w.checkWalk("ordered listing", got, a, fwd, false)
			if o.b > 1 {
				ids, signal, err := w.walker(a, fwd)
				if err != nil {
					w.fail("walker of %v: %v", a, err)
				}
				n := o.b / 2 % 4
				part, closed := w.collect("walk", ids, n)
				if !closed {
					signal <- true
					rest, _ := w.collect("stopped walk", ids, -1)
					part = append(part, rest...)
				}
				w.checkWalk("walk", part, a, fwd, !closed)
			}
		}
	case "Stop":
		if !ka || a == zero || p != "D08" && p != "D07" {
			return
		}
		fwd := o.b%2 == 0
		n := o.b / 4 % 4
		ids, signal, err := w.walker(a, fwd)
		if err != nil {
			w.fail("walker of %v: %v", a, err)
		}
		if p == "D07" {
			got, closed := w.collect("walk", ids, -1)
			w.checkWalk("walk", got, a, fwd, !closed)
			return
		}
		part, closed := w.collect("walk", ids, n)
		if o.b/2%2 == 0 && !closed {
			time.Sleep(200 * time.Microsecond) // let the walker block in its delivery
		}
		if o.b/16%2 == 1 { // the walk has finished, and stopping is still safe
			_, _ = w.collect("walk", ids, -1)
			time.Sleep(100 * time.Microsecond)
		}
		done := make(chan string, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					done <- fmt.Sprint("asking to stop panics: ", r)
				}
			}()
			signal <- true
			done <- ""
		}()
		select {
		case m := <-done:
			if m != "" {
				w.fail("walk of %v after %v: %s", a, part, m)
			}
		case <-time.After(3 * time.Second):
			w.fail("walk of %v after %v: asking to stop blocks", a, part)
		}
		if o.b/2%2 == 0 && o.b/16%2 == 0 {
			time.Sleep(2 * time.Millisecond) // the walker has seen the request by now
			select {
			case k, ok := <-ids:
				if ok {
					w.fail("walk of %v delivered %v although it was asked to stop while it waited", a, k)
				}
			case <-time.After(3 * time.Second):
				w.fail("walk of %v after %v: asked to stop, the delivery channel is never closed", a, part)
			}
		} else {
			_, _ = w.collect("stopped walk", ids, -1)
		}
		time.Sleep(50 * time.Microsecond)
		func() { // the caller may close its own request channel
			defer func() {
				if r := recover(); r != nil {
					w.fail("walk of %v: the request channel was closed by the walker: %v", a, r)
				}
			}()
			for len(signal) > 0 {
				<-signal
			}
			select {
			case _, ok := <-signal:
				if ok {
					w.fail("walk of %v: the walker sent on the request channel", a)
				} else {
					w.fail("walk of %v: the walker closed the request channel", a)
				}
			default:
			}
			close(signal)
		}()
	case "Query":
		w.query(a, b)
	}
}

// disturb changes a returned collection, and keeps another to compare later.
func (w *world[K]) disturb(m map[K]int, what string) {
	c := map[K]int{}
	for k, v := range m {
		c[k] = v
	}
	w.n++
	if w.n%2 == 0 {
		w.snaps = append(w.snaps, snap[K]{m, c, what})
		return
	}
	for k := range m {
		if w.n%3 == 0 {
			delete(m, k)
		} else {
			m[k] = -1
		}
	}
	for i := 1; i < 8; i++ {
		m[w.key(i)] = -2
	}
}

func (w *world[K]) query(a, b K) {
	g := w.g
	p := w.prop
	var zero K
	_, ka := w.verts[a]
	_, kb := w.verts[b]
	if p == "D10" {
		if m := g.GetVertices(); m != nil {
			w.disturb(m, "GetVertices")
		}
		w.disturb(g.GetRoots(), "GetRoots")
		w.disturb(g.GetLeaves(), "GetLeaves")
		if m, err := g.GetParents(a); err == nil {
			w.disturb(m, "GetParents")
		}
		if m, err := g.GetChildren(a); err == nil {
			w.disturb(m, "GetChildren")
		}
		_, _ = g.IsEdge(a, b)
		_, _ = g.GetVertex(a)
		_ = g.String()
		return
	}
	if p != "D05" && p != "D04" && p != "D06" {
		return
	}
	var werr error
	if a == zero {
		werr = ErrVertexIDEmpty
	} else if !ka {
		werr = ErrVertexNotFound
	}
	v, err := g.GetVertex(a)
	if err != werr || (err == nil && v != any(w.verts[a])) || (err != nil && v != nil) {
		w.fail("GetVertex(%v) = %v, %v, want %v, %v", a, v, err, w.verts[a], werr)
	}
	for _, fwd := range []bool{false, true} {
		f, n := g.GetParents, "GetParents"
		if fwd {
			f, n = g.GetChildren, "GetChildren"
		}
		got, err := f(a)
		want := map[K]int{}
		for e := range w.edges {
			if fwd && e[0] == a {
				want[e[1]] = w.verts[e[1]]
			}
			if !fwd && e[1] == a {
				want[e[0]] = w.verts[e[0]]
			}
		}
		if err != werr || (err == nil && !eqMap(got, want)) || (err != nil && got != nil) {
			w.fail("%s(%v) = %v, %v, want %v, %v", n, a, got, err, want, werr)
		}
	}
	is, err := g.IsEdge(a, b)
	if ok := a != zero && b != zero && a != b && ka && kb; ok != (err == nil) || is != (ok && w.edges[[2]K{a, b}]) {
		w.fail("IsEdge(%v, %v) = %v, %v; the edges are %v", a, b, is, err, w.edges)
	} else if err != nil {
		app := map[error]bool{ErrEdgeSourceIDEmpty: a == zero, ErrEdgeTargetIDEmpty: b == zero, ErrEdgeSourceTargetIdentical: a == b,
			ErrEdgeSourceIDNotFound: a != zero && !ka, ErrEdgeTargetIDNotFound: b != zero && !kb}
		if !app[err] {
			w.fail("IsEdge(%v, %v): %v", a, b, err)
		}
	}
}

// wrong reports how the graph as a whole differs from the model.
func (w *world[K]) wrong() string {
	g := w.g
	var m []string
	if got := g.GetVertices(); !eqMap(got, w.verts) {
		m = append(m, fmt.Sprintf("GetVertices() = %v, want %v", got, w.verts))
	}
	if g.GetOrder() != len(w.verts) {
		m = append(m, fmt.Sprintf("GetOrder() = %d, want %d", g.GetOrder(), len(w.verts)))
	}
	if g.GetSize() != len(w.edges) {
		m = append(m, fmt.Sprintf("GetSize() = %d, want %d", g.GetSize(), len(w.edges)))
	}
	roots, leaves := map[K]int{}, map[K]int{}
	for v, x := range w.verts {
		in, out := 0, 0
		for e := range w.edges {
			if e[0] == v {
				out++
			}
			if e[1] == v {
				in++
			}
		}
		if in == 0 {
			roots[v] = x
		}
		if out == 0 {
			leaves[v] = x
		}
		if y, err := g.GetVertex(v); err != nil || y != any(x) {
			m = append(m, fmt.Sprintf("GetVertex(%v) = %v, %v, want %v", v, y, err, x))
		}
		ps, _ := g.GetParents(v)
		cs, _ := g.GetChildren(v)
		wp, wc := map[K]int{}, map[K]int{}
		for e := range w.edges {
			if e[0] == v {
				wc[e[1]] = w.verts[e[1]]
			}
			if e[1] == v {
				wp[e[0]] = w.verts[e[0]]
			}
		}
		if !eqMap(ps, wp) {
			m = append(m, fmt.Sprintf("GetParents(%v) = %v, want %v", v, ps, wp))
		}
		if !eqMap(cs, wc) {
			m = append(m, fmt.Sprintf("GetChildren(%v) = %v, want %v", v, cs, wc))
		}
		for u := range w.verts {
			if u != v {
				if is, err := g.IsEdge(v, u); err != nil || is != w.edges[[2]K{v, u}] {
					m = append(m, fmt.Sprintf("IsEdge(%v, %v) = %v, %v", v, u, is, err))
				}
			}
		}
	}
	if got := g.GetRoots(); !eqMap(got, roots) {
		m = append(m, fmt.Sprintf("GetRoots() = %v, want %v", got, roots))
	}
	if got := g.GetLeaves(); !eqMap(got, leaves) {
		m = append(m, fmt.Sprintf("GetLeaves() = %v, want %v", got, leaves))
	}
	return strings.Join(m, "; ")
}

func (w *world[K]) after(o vop) {
	switch w.prop {
	case "D01":
		w.observe()
		for v := range w.verts {
			if _, ok := w.reach(v, true)[v]; ok {
				w.fail("after %v vertex %v is on a cycle: %v", o, v, w.edges)
			}
		}
	case "D02":
		vs := w.g.GetVertices()
		sum := 0
		for v := range vs {
			cs, _ := w.g.GetChildren(v)
			ps, _ := w.g.GetParents(v)
			sum += len(cs)
			for c := range cs {
				if _, ok := vs[c]; !ok {
					w.fail("after %v, %v has the child %v, which is no vertex", o, v, c)
				}
				if q, _ := w.g.GetParents(c); q != nil {
					if _, ok := q[v]; !ok {
						w.fail("after %v, %v has the child %v, which does not list it as a parent", o, v, c)
					}
				}
			}
			for q := range ps {
				if _, ok := vs[q]; !ok {
					w.fail("after %v, %v has the parent %v, which is no vertex", o, v, q)
				}
				if c, _ := w.g.GetChildren(q); c != nil {
					if _, ok := c[v]; !ok {
						w.fail("after %v, %v has the parent %v, which does not list it as a child", o, v, q)
					}
				}
			}
		}
		if sum != w.g.GetSize() {
			w.fail("after %v, %d edges between vertices but GetSize() = %d", o, sum, w.g.GetSize())
		}
	case "D04", "D05", "D06", "D10":
		if w.prop == "D06" && o.k != "Reduce" && o.k != "Query" {
			return
		}
		if m := w.wrong(); m != "" {
			w.fail("after %v: %s", o, m)
		}
		for _, s := range w.snaps {
			if !eqMap(s.m, s.copy) {
				w.fail("after %v, an earlier result of %s changed from %v to %v", o, s.what, s.copy, s.m)
			}
		}
	}
}

func run[K comparable](key func(int) K, h []vop, prop string) (msg string) {
	w := &world[K]{g: NewAcyclicGraph[K, int](), key: key, verts: map[K]int{}, edges: map[[2]K]bool{}, prop: prop}
	var cur vop
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(fail); ok {
				msg = f.msg
			} else {
				msg = fmt.Sprintf("%v panics: %v", cur, r)
			}
		}
	}()
	for _, o := range h {
		cur = o
		if prop == "D11" {
			before := runtime.NumGoroutine()
			done := make(chan string, 1)
			go func() {
				defer func() {
					if r := recover(); r != nil {
						done <- "" // other properties' business
					}
				}()
				w.step(o)
				if o.k == "Stop" {
					done <- w.ended(o)
				} else {
					done <- ""
				}
			}()
			select {
			case m := <-done:
				if m != "" {
					return m
				}
			case <-time.After(4 * time.Second):
				return fmt.Sprintf("%v does not return within 4 s", o)
			}
			for i := 0; runtime.NumGoroutine() > before; i++ {
				if i > 3000 {
					return fmt.Sprintf("%v leaves %d goroutines running", o, runtime.NumGoroutine()-before)
				}
				time.Sleep(time.Millisecond)
			}
			continue
		}
		w.step(o)
		w.after(o)
	}
	return ""
}

type point struct{ X, Y int }

func attempt(kind int, h []vop, prop string) string {
	switch kind {
	case 1:
		return run(func(i int) int { return i }, h, prop)
	case 2:
		return run(func(i int) point {
			if i == 0 {
				return point{}
			}
			return point{i % 3, i/3 + 1}
		}, h, prop)
	}
	return run(func(i int) string {
		if i == 0 {
			return ""
		}
		return string(rune('a' + i - 1))
	}, h, prop)
}

var kinds = []string{"string", "int", "struct"}

func history(r *rand.Rand, prop string) []vop {
	nv := 2 + r.Intn(6)
	n := 4 + r.Intn(30)
	var h []vop
	id := func() int {
		if r.Intn(25) == 0 {
			return 0
		}
		return 1 + r.Intn(nv)
	}
	for i := 1; i <= nv; i++ {
		if r.Intn(8) != 0 {
			h = append(h, vop{"AddVertex", i, 0})
		}
	}
	heavy := r.Intn(2) == 0
	for i := 0; i < n; i++ {
		x := r.Intn(100)
		a, b := id(), id()
		switch {
		case heavy && i < nv*2:
			if a > b && r.Intn(6) != 0 {
				a, b = b, a
			}
			h = append(h, vop{"AddEdge", a, b})
		case x < 30:
			h = append(h, vop{"AddEdge", a, b})
		case x < 40:
			h = append(h, vop{"DeleteEdge", a, b})
		case x < 46:
			h = append(h, vop{"DeleteVertex", a, 0})
		case x < 54:
			h = append(h, vop{"AddVertex", a, 0})
		case x < 65:
			h = append(h, vop{"Ancestors", a, 0})
		case x < 76:
			h = append(h, vop{"Descendants", a, 0})
		case x < 80:
			h = append(h, vop{"Reduce", 0, 0})
		case x < 90 && (prop == "D07" || prop == "D10" || prop == "D08" || prop == "D11"):
			h = append(h, vop{"Ordered", a, r.Intn(8)})
		case prop == "D07" || prop == "D08" || prop == "D11" && r.Intn(2) == 0:
			h = append(h, vop{"Stop", a, r.Intn(32)})
		default:
			h = append(h, vop{"Query", a, b})
		}
	}
	return h
}

func show(kind int, h []vop, msg string) string {
	var s []string
	for _, o := range h {
		s = append(s, o.String())
	}
	return fmt.Sprintf("failing input (keys are %ss; 0 is the zero key, 1, 2, ... are distinct keys):\n  new graph; %s\nobserved: %s\n", kinds[kind], strings.Join(s, "; "), msg)
}

func shrink(kind int, h []vop, prop, msg string, end time.Time) ([]vop, string) {
	try := func(c []vop) string {
		for i := 0; i < 6; i++ {
			if m := attempt(kind, c, prop); m != "" {
				return m
			}
		}
		return ""
	}
	for again := true; again; {
		again = false
		for i := len(h) - 1; i >= 0 && time.Now().Before(end); i-- {
			c := append(append([]vop{}, h[:i]...), h[i+1:]...)
			if m := try(c); m != "" {
				h, msg, again = c, m, true
			}
		}
	}
	return h, msg
}

// ---- sets

func setCase[T comparable](r *rand.Rand, key func(int) T) (msg string) {
	defer func() {
		if x := recover(); x != nil {
			msg = fmt.Sprintf("panic: %v; %s", x, msg)
		}
	}()
	mk := func() Set[T] {
		if r.Intn(8) == 0 {
			return nil
		}
		s := Set[T]{}
		for i := r.Intn(6); i > 0; i-- {
			k := key(r.Intn(7))
			s[k] = k
		}
		return s
	}
	cp := func(s Set[T]) map[T]T {
		c := map[T]T{}
		for k, v := range s {
			c[k] = v
		}
		return c
	}
	str := func(s Set[T]) string {
		if s == nil {
			return "nil"
		}
		var x []string
		for k, v := range s {
			if k == v {
				x = append(x, fmt.Sprint(k))
			} else {
				x = append(x, fmt.Sprintf("%v:%v", k, v))
			}
		}
		sort.Strings(x)
		return "{" + strings.Join(x, " ") + "}"
	}
	a, b := mk(), mk()
	if r.Intn(12) == 0 {
		b = a
	}
	ca, cb := cp(a), cp(b)
	sa, sb := str(a), str(b)
	k := key(r.Intn(7))
	check := func(what string, got Set[T], in func(T) bool, un ...Set[T]) string {
		if got == nil {
			return what + " is nil"
		}
		n := 0
		for x := range un[0] {
			if in(x) {
				n++
				if v, ok := got[x]; !ok || v != x {
					return fmt.Sprintf("%s = %s, lacks %v", what, str(got), x)
				}
			}
		}
		if n != len(got) {
			return fmt.Sprintf("%s = %s", what, str(got))
		}
		if !reflect.DeepEqual(cp(a), ca) || !reflect.DeepEqual(cp(b), cb) {
			return fmt.Sprintf("%s changed an operand: %s, %s", what, str(a), str(b))
		}
		for i := 0; i < 8; i++ { // shares no storage
			got[key(i)] = key(i)
		}
		if !reflect.DeepEqual(cp(a), ca) || !reflect.DeepEqual(cp(b), cb) {
			return fmt.Sprintf("changing the result of %s changed an operand: %s, %s", what, str(a), str(b))
		}
		return ""
	}
	has := func(s Set[T], x T) bool { _, ok := s[x]; return ok }
	msg = fmt.Sprintf("operands %s, %s, %v", sa, sb, k)
	if a.Includes(k) != has(a, k) {
		return fmt.Sprintf("%s.Includes(%v) = %v", sa, k, a.Includes(k))
	}
	if m := check(fmt.Sprintf("%s.Intersection(%s)", sa, sb), a.Intersection(b), func(x T) bool { return has(b, x) }, a); m != "" {
		return m
	}
	if m := check(fmt.Sprintf("%s.Difference(%s)", sa, sb), a.Difference(b), func(x T) bool { return !has(b, x) }, a); m != "" {
		return m
	}
	if m := check(fmt.Sprintf("%s.Copy()", sa), a.Copy(), func(x T) bool { return true }, a); m != "" {
		return m
	}
	keep := r.Intn(128)
	cb2 := func(x T) bool {
		for i := 0; i < 8; i++ {
			if key(i) == x {
				return keep>>uint(i)&1 == 1
			}
		}
		return false
	}
	if m := check(fmt.Sprintf("%s.Filter(mask %b)", sa, keep), a.Filter(cb2), cb2, a); m != "" {
		return m
	}
	l := a.List()
	seen := Set[T]{}
	for _, x := range l {
		if !has(a, x) || has(seen, x) {
			return fmt.Sprintf("%s.List() = %v", sa, l)
		}
		seen[x] = x
	}
	if len(seen) != len(a) {
		return fmt.Sprintf("%s.List() = %v", sa, l)
	}
	for i := range l {
		l[i] = key(0)
	}
	if !reflect.DeepEqual(cp(a), ca) {
		return "List() shares storage or changed the set " + sa
	}
	if a != nil {
		a.Add(k)
		ca[k] = k
		if !reflect.DeepEqual(cp(a), ca) {
			return fmt.Sprintf("%s.Add(%v) gives %s", sa, k, str(a))
		}
	}
	k2 := key(r.Intn(7))
	sa = str(a)
	a.Delete(k2)
	delete(ca, k2)
	if !reflect.DeepEqual(cp(a), ca) {
		return fmt.Sprintf("%s.Delete(%v) gives %s", sa, k2, str(a))
	}
	return ""
}

func TestVerifReplay(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	outf := os.Getenv("VERIF_OUT")
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if secs == 0 {
		secs = 20
	}
	end := time.Now().Add(time.Duration(secs) * time.Second)
	r := rand.New(rand.NewSource(seed))
	n := 0
	report := func(s string) {
		if outf != "" {
			_ = os.WriteFile(outf, []byte(fmt.Sprintf("property %s, seed %d, case %d\n%s", prop, seed, n, s)), 0o644)
		}
		t.Fatal(s)
	}
	for time.Now().Before(end) && n < 150000 {
		n++
		if prop == "D09" {
			m := ""
			if n%2 == 0 {
				m = setCase(r, func(i int) string { return string(rune('a' + i)) })
			} else {
				m = setCase(r, func(i int) int { return i })
			}
			if m != "" {
				report("failing input: " + m + "\n")
			}
			continue
		}
		kind := n % 3
		h := history(r, prop)
		if outf != "" && (prop == "D07" || prop == "D08" || prop == "D11") {
			_ = os.WriteFile(outf+".cur", []byte(show(kind, h, "")), 0o644)
		}
		if m := attempt(kind, h, prop); m != "" {
			if prop == "D08" { // timing decides what this observes: it must happen again
				again := 0
				for i := 0; i < 6; i++ {
					if attempt(kind, h, prop) != "" {
						again++
					}
				}
				if again < 3 {
					continue
				}
			}
			if prop == "D11" {
				report(show(kind, h, m))
			}
			h2, m2 := shrink(kind, h, prop, m, time.Now().Add(15*time.Second))
			report(show(kind, h2, m2))
		}
	}
	t.Logf("%d cases, no failure", n)
}
