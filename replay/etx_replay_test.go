package etx

// Looks for a failing input of one property of pkg/etx against the real code.
// Trees are made at random from the grammar in the struct tags.  Run by
// check.py when a proof obligation fails.

import (
	"io"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/alecthomas/participle/v2"
	"github.com/alecthomas/participle/v2/lexer"
)

// ---------------------------------------------------------------- grammar

type gnode struct {
	op    string // alt seq opt star plus cap sub tok lit
	kids  []*gnode
	text  string
	field int
}

var tokRe = regexp.MustCompile(`^\s*('(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*"|@@|[@|()\[\]{}?*+!~]|[A-Za-z_]\w*(?::\w+)?)`)

type gtok struct {
	s string
	f int
}

type gparser struct {
	toks []gtok
	i    int
}

func (p *gparser) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i].s
	}
	return ""
}

func (p *gparser) alt() *gnode {
	a := &gnode{op: "alt", kids: []*gnode{p.seq()}}
	for p.peek() == "|" {
		p.i++
		a.kids = append(a.kids, p.seq())
	}
	return a
}

func (p *gparser) seq() *gnode {
	s := &gnode{op: "seq"}
	for p.i < len(p.toks) && !strings.Contains("|)]}", p.peek()) {
		s.kids = append(s.kids, p.term())
	}
	return s
}

func (p *gparser) term() *gnode {
	n := p.atom()
	switch p.peek() {
	case "?":
		p.i++
		return &gnode{op: "opt", kids: []*gnode{n}}
	case "*":
		p.i++
		return &gnode{op: "star", kids: []*gnode{n}}
	case "+":
		p.i++
		return &gnode{op: "plus", kids: []*gnode{n}}
	case "!":
		p.i++
	}
	return n
}

func (p *gparser) atom() *gnode {
	t := p.toks[p.i]
	p.i++
	switch {
	case t.s == "(":
		n := p.alt()
		p.i++
		return n
	case t.s == "[":
		n := p.alt()
		p.i++
		return &gnode{op: "opt", kids: []*gnode{n}}
	case t.s == "{":
		n := p.alt()
		p.i++
		return &gnode{op: "star", kids: []*gnode{n}}
	case t.s == "@@":
		return &gnode{op: "sub", field: t.f}
	case t.s == "@":
		return &gnode{op: "cap", field: t.f, kids: []*gnode{p.atom()}}
	case t.s[0] == '\'' || t.s[0] == '"':
		return &gnode{op: "lit", text: t.s[1 : len(t.s)-1]}
	}
	return &gnode{op: "tok", text: t.s}
}

var grammars = map[reflect.Type]*gnode{}

func grammar(t reflect.Type) *gnode {
	if g, ok := grammars[t]; ok {
		return g
	}
	p := &gparser{}
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).Name == "ASTNode" {
			continue
		}
		tag := t.Field(i).Tag.Get("parser")
		for {
			m := tokRe.FindStringSubmatch(tag)
			if m == nil {
				break
			}
			p.toks = append(p.toks, gtok{m[1], i})
			tag = tag[len(m[0]):]
		}
	}
	var g *gnode
	if len(p.toks) > 0 {
		g = p.alt()
	}
	grammars[t] = g
	return g
}

func elemType(t reflect.Type) reflect.Type {
	for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice {
		t = t.Elem()
	}
	return t
}

const far = 1 << 20

var depths = map[reflect.Type]int{}

// cost is the least depth of a tree of this grammar.
func cost(n *gnode, t reflect.Type) int {
	switch n.op {
	case "alt":
		m := far
		for _, k := range n.kids {
			if c := cost(k, t); c < m {
				m = c
			}
		}
		return m
	case "seq", "plus", "cap":
		m := 0
		for _, k := range n.kids {
			if c := cost(k, t); c > m {
				m = c
			}
		}
		return m
	case "sub":
		e := elemType(t.Field(n.field).Type)
		d, ok := depths[e]
		if !ok {
			return far
		}
		return d + 1
	}
	return 0
}

func computeDepths(roots []reflect.Type) {
	all := map[reflect.Type]bool{}
	var visit func(reflect.Type)
	visit = func(t reflect.Type) {
		t = elemType(t)
		if t.Kind() != reflect.Struct || all[t] || t.PkgPath() != reflect.TypeOf(AST{}).PkgPath() {
			return
		}
		all[t] = true
		for i := 0; i < t.NumField(); i++ {
			if n := t.Field(i).Name; n != "ASTNode" && n != "Parent" {
				visit(t.Field(i).Type)
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	for changed := true; changed; {
		changed = false
		for t := range all {
			c := 0
			if g := grammar(t); g != nil {
				c = cost(g, t)
			}
			if c >= far {
				continue
			}
			if d, ok := depths[t]; !ok || c < d {
				depths[t] = c
				changed = true
			}
		}
	}
}

// ---------------------------------------------------------------- random trees

type gen struct {
	r      *rand.Rand
	budget int
}

func (g *gen) pick(s ...string) string { return s[g.r.Intn(len(s))] }

func (g *gen) word() string {
	n := 1 + g.r.Intn(6)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefgxyzNKQ_0379"[g.r.Intn(18)]
	}
	if b[0] == '_' || b[0] <= '9' {
		b[0] = 'k'
	}
	return string(b)
}

func (g *gen) tok(name string) string {
	switch name {
	case "LF":
		return "\n"
	case "Ident":
		return g.word()
	case "Number":
		return g.number()
	case "SingleLineComment":
		return g.pick("// ", "# ", "#", "//") + g.pick("", g.word(), g.word()+" %s "+g.word())
	case "MultilineComment":
		return "/* " + g.word() + g.pick("", "\n", "\n\n", "%d\n") + g.word() + " */"
	case "Escaped":
		return `\` + g.pick("n", "t", `"`, `\`)
	case "UnicodeLong":
		return fmt.Sprintf("%08x", g.r.Intn(1<<20))
	case "UnicodeShort":
		return fmt.Sprintf("%04x", g.r.Intn(1<<16))
	case "Char", "Body":
		return g.word() + g.pick("", " ", " "+g.word()+" ")
	case "EOL":
		return "\n"
	case "Quote":
		return "'"
	case "NonExpr":
		return g.pick("$${", "%%{")
	case "Heredoc":
		return "<<" + g.pick("", "-") + g.word() + "\n"
	}
	ops := map[string]string{"OpMinus": "-", "OpPlus": "+", "OpBitwiseNot": "~", "OpLogicalNot": "!", "OpBitwiseShiftLeft": "<<", "OpBitwiseShiftRight": ">>",
		"OpDivision": "/", "OpMultiplication": "*", "OpModulo": "%", "OpMore": ">", "OpMoreOrEqual": ">=", "OpLess": "<", "OpLessOrEqual": "<=",
		"OpNotEqual": "!=", "OpEqual": "==", "OpBitwiseAnd": "&", "OpBitwiseOr": "|", "OpBitwiseXOr": "^", "OpLogicalAnd": "&&", "OpLogicalOr": "||"}
	if o, ok := ops[name]; ok {
		return o
	}
	return name
}

func (g *gen) digits(set string, min, max int) string {
	n := min + g.r.Intn(max-min+1)
	b := make([]byte, n)
	for i := range b {
		b[i] = set[g.r.Intn(len(set))]
	}
	return string(b)
}

func (g *gen) number() string {
	switch g.r.Intn(10) {
	case 0:
		return g.pick("0x", "0X") + g.digits("0123456789abcdefABCDEF_", 1, 6)
	case 1:
		return g.pick("0b", "0B") + g.digits("01_", 0, 6)
	case 2:
		return g.pick("0o", "0O") + g.digits("01234567_", 0, 6)
	case 3, 4:
		return "0" + g.digits("0123456789_", 0, 5)
	case 5:
		return g.digits("0123456789_", 0, 3) + "." + g.digits("0123456789_", 1, 4)
	case 6:
		return g.digits("0123456789", 1, 3) + g.pick("e", "E") + g.pick("", "+", "-") + g.digits("0123456789_", 1, 2)
	case 7:
		return "0" + g.digits("01234567", 1, 4)
	case 8:
		return g.digits("_0", 1, 3)
	}
	return g.digits("123456789", 1, 1) + g.digits("0123456789_", 0, 20)
}

func (g *gen) tokens(n *gnode, t reflect.Type) []string {
	switch n.op {
	case "alt":
		return g.tokens(n.kids[g.r.Intn(len(n.kids))], t)
	case "seq", "cap":
		var out []string
		for _, k := range n.kids {
			out = append(out, g.tokens(k, t)...)
		}
		return out
	case "opt":
		if g.r.Intn(2) == 0 {
			return g.tokens(n.kids[0], t)
		}
		return nil
	case "star", "plus":
		var out []string
		c := g.r.Intn(3)
		if n.op == "plus" {
			c++
		}
		for ; c > 0; c-- {
			out = append(out, g.tokens(n.kids[0], t)...)
		}
		return out
	case "lit":
		return []string{n.text}
	case "tok":
		return []string{g.tok(n.text)}
	}
	return nil
}

func (g *gen) pos() Position {
	return Position{Filename: g.pick("", "f"), Offset: g.r.Intn(1000), Line: g.r.Intn(100), Column: g.r.Intn(80)}
}

// tree makes a value of the struct type t; v is addressable.
func (g *gen) tree(v reflect.Value) {
	t := v.Type()
	g.budget--
	if f := v.FieldByName("ASTNode"); f.IsValid() {
		f.Addr().Interface().(*ASTNode).Pos = g.pos()
	}
	switch x := v.Addr().Interface().(type) {
	case *ValueBool:
		x.Value = g.r.Intn(2) == 0
		return
	case *ValueNumber:
		for {
			s := g.number()
			if f, _, err := new(big.Float).Parse(s, 0); err == nil {
				x.Source, x.Value = s, f
				return
			}
		}
	case *HeredocDelimiter:
		x.LeadingTabs = g.r.Intn(2) == 0
		x.Delimiter = g.word()
		return
	}
	if gr := grammar(t); gr != nil {
		g.fill(gr, v)
	}
}

func (g *gen) fill(n *gnode, v reflect.Value) {
	t := v.Type()
	low := g.budget <= 0
	switch n.op {
	case "alt":
		k := n.kids[g.r.Intn(len(n.kids))]
		if low || cost(k, t) >= far {
			best := far
			for _, c := range n.kids {
				if d := cost(c, t); d < best {
					best, k = d, c
				}
			}
		}
		g.fill(k, v)
	case "seq":
		for _, k := range n.kids {
			g.fill(k, v)
		}
	case "opt":
		if !low && g.r.Intn(2) == 0 || low && cost(n.kids[0], t) == 0 && g.r.Intn(3) == 0 {
			g.fill(n.kids[0], v)
		}
	case "star", "plus":
		c := g.r.Intn(4)
		if low {
			c = 0
		}
		if n.op == "plus" && c == 0 {
			c = 1
		}
		for ; c > 0; c-- {
			g.fill(n.kids[0], v)
		}
	case "cap":
		g.capture(v.Field(n.field), g.tokens(n.kids[0], t))
	case "sub":
		g.sub(v.Field(n.field))
	}
}

func (g *gen) sub(f reflect.Value) {
	switch f.Kind() {
	case reflect.Struct:
		g.tree(f)
	case reflect.Ptr:
		p := reflect.New(f.Type().Elem())
		g.tree(p.Elem())
		f.Set(p)
	case reflect.Slice:
		if f.Type().Elem().Kind() == reflect.Ptr {
			p := reflect.New(f.Type().Elem().Elem())
			g.tree(p.Elem())
			f.Set(reflect.Append(f, p))
		} else {
			p := reflect.New(f.Type().Elem())
			g.tree(p.Elem())
			f.Set(reflect.Append(f, p.Elem()))
		}
	}
}

func (g *gen) capture(f reflect.Value, toks []string) {
	switch f.Kind() {
	case reflect.String:
		f.SetString(f.String() + strings.Join(toks, ""))
	case reflect.Bool:
		f.SetBool(true)
	case reflect.Struct:
		g.tree(f)
	case reflect.Ptr:
		if f.Type().Elem().Kind() == reflect.Struct {
			g.sub(f)
			return
		}
		p := reflect.New(f.Type().Elem())
		g.capture(p.Elem(), toks)
		f.Set(p)
	case reflect.Slice:
		if f.Type().Elem().Kind() == reflect.String {
			for _, t := range toks {
				f.Set(reflect.Append(f, reflect.ValueOf(t).Convert(f.Type().Elem())))
			}
			return
		}
		g.sub(f)
	}
}

var samples = []any{
	AST{}, RootItem{}, ParameterType{}, FuncSignature{}, Attribute{}, Block{}, BlockItem{}, Comment{}, Decl{}, Expr{}, ExprIf{}, ExprSwitch{}, ExprCase{}, ExprConditional{},
	ExprLogicalOr{}, ExprLogicalAnd{}, ExprBitwiseOr{}, ExprBitwiseXor{}, ExprBitwiseAnd{}, ExprEquality{}, ExprRelational{}, ExprShift{}, ExprAdditive{}, ExprMultiplicative{},
	ExprUnary{}, ExprPostfix{}, ExprPrimary{}, ExprInvocationParams{}, Func{}, FuncParameter{}, FuncStatement{}, FuncDecl{}, Ident{}, Lambda{}, LambdaParameter{},
	Type{}, TypeEnum{}, TypeEnumItem{}, TypeObject{}, TypeObjectItem{}, Value{}, ValueBool{}, ValueNumber{}, Heredoc{}, HeredocDelimiter{}, HeredocFragment{}, ValueString{}, StringFragment{},
	ValueList{}, ListItem{}, ValueMap{}, MapItem{}, MapKey{},
}

var nodeType = reflect.TypeOf((*Node)(nil)).Elem()

// kidsOf lists the sub-nodes of the struct v, in the order of the grammar.
func kidsOf(v reflect.Value) []Node {
	var out []Node
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := v.Field(i)
		if t.Field(i).Name == "ASTNode" {
			continue
		}
		switch {
		case f.Kind() == reflect.Ptr && f.Type().Implements(nodeType):
			if !f.IsNil() {
				out = append(out, f.Interface().(Node))
			}
		case f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Ptr && f.Type().Elem().Implements(nodeType):
			for j := 0; j < f.Len(); j++ {
				out = append(out, f.Index(j).Interface().(Node))
			}
		case f.Kind() == reflect.Struct && reflect.PtrTo(f.Type()).Implements(nodeType):
			out = append(out, f.Addr().Interface().(Node))
		}
	}
	return out
}

func each(v reflect.Value, f func(reflect.Value)) {
	f(v)
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).Name == "ASTNode" {
			continue
		}
		x := v.Field(i)
		switch {
		case isTree(x.Type()):
			each(x, f)
		case x.Kind() == reflect.Ptr && isTree(x.Type().Elem()) && !x.IsNil():
			each(x.Elem(), f)
		case x.Kind() == reflect.Slice && x.Type().Elem().Kind() == reflect.Ptr && isTree(x.Type().Elem().Elem()):
			for j := 0; j < x.Len(); j++ {
				each(x.Index(j).Elem(), f)
			}
		}
	}
}

func isTree(t reflect.Type) bool {
	return t.Kind() == reflect.Struct && t.PkgPath() == reflect.TypeOf(AST{}).PkgPath() && t.Name() != "ASTNode"
}

// dump writes out everything but the parent links (or, on demand, these too).
func dump(v reflect.Value, parents bool) string {
	var sb strings.Builder
	var w func(v reflect.Value, ind string)
	w = func(v reflect.Value, ind string) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				sb.WriteString("nil")
				return
			}
			if f, ok := v.Interface().(*big.Float); ok {
				fmt.Fprintf(&sb, "%s/%d/%d", f.Text('p', 0), f.Prec(), f.Mode())
				return
			}
			sb.WriteString("&")
			if parents {
				fmt.Fprintf(&sb, "%x", v.Pointer())
			}
			w(v.Elem(), ind)
		case reflect.Slice:
			if v.IsNil() {
				sb.WriteString("none")
				return
			}
			sb.WriteString("[")
			if parents {
				fmt.Fprintf(&sb, "%x %d", v.Pointer(), v.Cap())
			}
			for i := 0; i < v.Len(); i++ {
				sb.WriteString("\n" + ind + " ")
				w(v.Index(i), ind+" ")
			}
			sb.WriteString("]")
		case reflect.Struct:
			if v.Type() == reflect.TypeOf(Position{}) {
				p := v.Interface().(Position)
				if p == (Position{}) {
					return
				}
				fmt.Fprintf(&sb, "%s:%d:%d:%d", p.Filename, p.Offset, p.Line, p.Column)
				return
			}
			sb.WriteString(v.Type().Name() + "{")
			for i := 0; i < v.NumField(); i++ {
				n := v.Type().Field(i).Name
				if n == "Parent" {
					if parents && !v.Field(i).IsNil() {
						fmt.Fprintf(&sb, " parent=%x", v.Field(i).Elem().Pointer())
					}
					continue
				}
				f := v.Field(i)
				if f.IsZero() {
					continue
				}
				was := sb.Len()
				sb.WriteString("\n" + ind + " " + n + ": ")
				now := sb.Len()
				w(f, ind+" ")
				if f.Kind() == reflect.Struct && sb.String()[now:] == f.Type().Name()+"{}" { // nothing in it
					keep := sb.String()[:was]
					sb.Reset()
					sb.WriteString(keep)
				}
			}
			sb.WriteString("}")
		case reflect.String:
			fmt.Fprintf(&sb, "%q", v.String())
		default:
			fmt.Fprintf(&sb, "%v", v.Interface())
		}
	}
	w(v, "")
	return sb.String()
}

// parts collects the addresses of the mutable parts reachable from v.
func parts(v reflect.Value, out map[uintptr]string) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Type().Elem().Size() > 0 {
			if _, ok := out[v.Pointer()]; ok {
				return
			}
			out[v.Pointer()] = v.Type().String()
		}
		parts(v.Elem(), out)
	case reflect.Interface:
		if !v.IsNil() {
			parts(v.Elem(), out)
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		out[v.Pointer()] = v.Type().String()
		for i := 0; i < v.Len(); i++ {
			parts(v.Index(i), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			parts(v.Field(i), out)
		}
	}
}

func guard(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("panic: %.300v", e)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

// link sets the parents as they should be.
func link(v reflect.Value, parent Node) {
	each(v, func(x reflect.Value) {
		p, ok := x.Addr().Interface().(Node)
		if !ok {
			return
		}
		for _, k := range kidsOf(x) {
			k.Node().Parent = p
		}
	})
	if n, ok := v.Addr().Interface().(Node); ok {
		if _, ok := v.Addr().Interface().(interface{ Node() *ASTNode }); ok {
			n.Node().Parent = parent
		}
	}
}

func call(v reflect.Value, m string) (res reflect.Value, msg string) {
	f := v.MethodByName(m)
	if !f.IsValid() {
		return reflect.Value{}, "none"
	}
	msg = guard(func() { res = f.Call(nil)[0] })
	return
}

// ---------------------------------------------------------------- the properties

func treeCase(g *gen, prop string) string {
	var v reflect.Value // pointer to the root
	if prop == "E04" {
		v = reflect.ValueOf(&AST{})
	} else {
		v = reflect.New(reflect.TypeOf(samples[g.r.Intn(len(samples))]))
	}
	g.budget = g.r.Intn(60)
	g.tree(v.Elem())
	switch prop {
	case "E01", "E02":
		if n, ok := v.Interface().(Node); ok && v.Elem().Type() != reflect.TypeOf(AST{}) && g.r.Intn(2) == 0 {
			link(v.Elem(), &RootItem{})
			_ = n
		}
		nilp := reflect.Zero(v.Type())
		if v.Elem().Type() != reflect.TypeOf(HeredocDelimiter{}) && prop == "E01" {
			c, msg := call(nilp, "Clone")
			if msg == "" && c.Kind() == reflect.Ptr && !c.IsNil() || msg != "" && msg != "none" {
				return fmt.Sprintf("(*%s)(nil).Clone() gives %v %s", v.Elem().Type().Name(), c, msg)
			}
		}
		c, msg := call(v, "Clone")
		if msg == "none" {
			return ""
		}
		if msg != "" {
			if prop == "E01" {
				return "tree:\n" + dump(v, false) + "\nClone: " + msg
			}
			return ""
		}
		if prop == "E01" {
			a, b := dump(v, false), dump(c, false)
			if a != b {
				return "tree:\n" + a + "\nits clone:\n" + b
			}
			return ""
		}
		pa, pb := map[uintptr]string{}, map[uintptr]string{}
		parts(v, pa)
		parts(c, pb)
		for p, what := range pb {
			if _, ok := pa[p]; ok {
				return "tree:\n" + dump(v, false) + "\nthe clone shares a " + what + " with it"
			}
		}
	case "E03":
		msg := ""
		each(v.Elem(), func(x reflect.Value) {
			n, ok := x.Addr().Interface().(interface{ Children() []Node })
			if !ok || msg != "" {
				return
			}
			want := kidsOf(x)
			var got []Node
			if m := guard(func() { got = n.Children() }); m != "" {
				msg = "node:\n" + dump(x, false) + "\nChildren: " + m
				return
			}
			same := len(got) == len(want)
			for i := 0; same && i < len(got); i++ {
				same = got[i] == want[i]
			}
			if !same {
				show := func(ns []Node) string {
					s := ""
					for _, k := range ns {
						if k == nil || reflect.ValueOf(k).IsNil() {
							s += "\n- nil"
							continue
						}
						s += "\n- " + dump(reflect.ValueOf(k), false)
					}
					return s
				}
				msg = "node:\n" + dump(x, false) + "\nreported children:" + show(got) + "\nsub-nodes:" + show(want)
			}
		})
		return msg
	case "E04":
		ast := v.Interface().(*AST)
		if g.r.Intn(2) == 0 { // linked before
			_ = guard(ast.UpdateParentRefs)
		}
		if g.r.Intn(2) == 0 { // stale links
			each(v.Elem(), func(x reflect.Value) {
				if n, ok := x.Addr().Interface().(Node); ok && g.r.Intn(3) == 0 {
					n.Node().Parent = &Comment{}
				}
			})
		}
		before := dump(v, false)
		if m := guard(ast.UpdateParentRefs); m != "" {
			return "tree:\n" + before + "\nUpdateParentRefs: " + m
		}
		if after := dump(v, false); after != before {
			return "tree:\n" + before + "\nafter UpdateParentRefs:\n" + after
		}
		return linked(ast)
	case "E05":
		_, msg := call(v, "FormattedString")
		if msg != "" && msg != "none" {
			return "tree:\n" + dump(v, false) + "\nFormattedString: " + msg
		}
	case "E07":
		link(v.Elem(), nil)
		before := dump(v, true)
		for _, m := range []string{"Clone", "Children", "FormattedString"} {
			_, _ = call(v, m)
			if after := dump(v, true); after != before {
				return "tree:\n" + before + "\nafter " + m + ":\n" + after
			}
		}
	}
	return ""
}

func linked(ast *AST) string {
	msg := ""
	var walk func(parent Node, n Node)
	walk = func(parent Node, n Node) {
		if msg != "" {
			return
		}
		if n.Node().Parent != parent {
			msg = fmt.Sprintf("tree:\n%s\nthe parent of\n%s\nis %s", dump(reflect.ValueOf(ast), false), dump(reflect.ValueOf(n), false), what(n.Node().Parent))
			return
		}
		for _, k := range kidsOf(reflect.ValueOf(n).Elem()) {
			walk(n, k)
		}
	}
	for _, i := range ast.Items {
		walk(nil, i)
	}
	return msg
}

func what(n Node) string {
	if n == nil {
		return "not set"
	}
	return fmt.Sprintf("a %T (not the node that lists it)", n)
}

// formats one tree and records, for every node, its parts and its text.
func formatCase(g *gen) (map[string]any, bool) {
	v := reflect.New(reflect.TypeOf(samples[g.r.Intn(len(samples))]))
	g.budget = g.r.Intn(40)
	g.tree(v.Elem())
	bad := false
	var rec func(x reflect.Value) any
	rec = func(x reflect.Value) any {
		out := map[string]any{"type": x.Type().Name()}
		if f, ok := x.Addr().Interface().(interface{ FormattedString() string }); ok {
			if m := guard(func() { out["fmt"] = f.FormattedString() }); m != "" {
				bad = true
			}
		}
		fs := map[string]any{}
		for i := 0; i < x.NumField(); i++ {
			n := x.Type().Field(i).Name
			if n == "ASTNode" {
				continue
			}
			f := x.Field(i)
			switch {
			case isTree(f.Type()):
				fs[n] = rec(f)
			case f.Kind() == reflect.Ptr && isTree(f.Type().Elem()):
				if f.IsNil() {
					fs[n] = nil
				} else {
					fs[n] = rec(f.Elem())
				}
			case f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Ptr && isTree(f.Type().Elem().Elem()):
				l := []any{}
				for j := 0; j < f.Len(); j++ {
					l = append(l, rec(f.Index(j).Elem()))
				}
				fs[n] = map[string]any{"list": l, "nil": f.IsNil()}
			case f.Kind() == reflect.Slice:
				l := []any{}
				for j := 0; j < f.Len(); j++ {
					l = append(l, map[string]any{"s": f.Index(j).String()})
				}
				fs[n] = map[string]any{"list": l, "nil": f.IsNil()}
			case f.Kind() == reflect.String:
				fs[n] = map[string]any{"s": f.String()}
			case f.Kind() == reflect.Bool:
				fs[n] = map[string]any{"b": f.Bool()}
			case f.Kind() == reflect.Ptr && f.Type().Elem().Kind() == reflect.String && !f.IsNil():
				fs[n] = map[string]any{"s": f.Elem().String()}
			default:
				fs[n] = nil
			}
		}
		out["fields"] = fs
		return out
	}
	d := rec(v.Elem())
	return map[string]any{"tree": d, "dump": dump(v, false)}, !bad
}

func refIndent(s, p string) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		if l != "" {
			ls[i] = p + l
		}
	}
	return strings.Join(ls, "\n")
}

func indentCase(g *gen) string {
	s := g.digits("ab\n\n\n\t \r\x00\xff", 0, 12)
	p := g.pick("\t", "", "  ", "\t\t", "x")
	orig := strings.Clone(s)
	var got string
	if m := guard(func() { got = indent(s, p) }); m != "" {
		return fmt.Sprintf("indent(%q, %q): %s", s, p, m)
	}
	if want := refIndent(s, p); got != want || s != orig {
		return fmt.Sprintf("indent(%q, %q) = %q, want %q", s, p, got, want)
	}
	b, q := append(make([]byte, 0, 64), s...), append(make([]byte, 0, 64), p...)
	got = string(indentBytes(b, q))
	if want := refIndent(s, p); got != want || string(b) != orig || string(q) != p {
		return fmt.Sprintf("indentBytes(%q, %q) = %q, want %q; arguments afterwards %q, %q", orig, p, got, want, b, q)
	}
	return ""
}

var zeroLed = regexp.MustCompile(`^0[0-9_]+$`)

func numberCase(g *gen) string {
	tok := g.number()
	v := &ValueNumber{}
	if g.r.Intn(2) == 0 {
		v.Value, v.Source = big.NewFloat(7), "7"
	}
	var err error
	if m := guard(func() { err = v.Capture([]string{tok}) }); m != "" {
		return fmt.Sprintf("Capture(%q): %s", tok, m)
	}
	want := tok
	if zeroLed.MatchString(tok) {
		want = "0o" + tok[1:]
	}
	ref := big.NewFloat(0)
	_, _, rerr := ref.Parse(want, 0)
	if (err != nil) != (rerr != nil) {
		return fmt.Sprintf("Capture(%q) returns %v, the parse of %q returns %v", tok, err, want, rerr)
	}
	if v.Source != want {
		return fmt.Sprintf("Capture(%q) stores %q, want %q", tok, v.Source, want)
	}
	if err != nil {
		return ""
	}
	if v.Value == nil || v.Value.Cmp(ref) != 0 || v.Value.Prec() != ref.Prec() {
		return fmt.Sprintf("Capture(%q) stores the number %v, want %v", tok, v.Value, ref)
	}
	if f := v.FormattedString(); f != want {
		return fmt.Sprintf("a captured %q is formatted as %q", tok, f)
	}
	v2 := &ValueNumber{}
	if err := v2.Capture([]string{v.Source}); err != nil || v2.Source != v.Source || v2.Value.Cmp(v.Value) != 0 {
		return fmt.Sprintf("%q captured twice gives %q then %q (%v)", tok, v.Source, v2.Source, err)
	}
	return ""
}

var heredocLexer *lexer.StatefulDefinition

func heredocCase(g *gen) string {
	word := g.digits("aZ_09", 1, 5)
	dash := g.pick("", "-")
	tok := "<<" + dash + word + "\n"
	if g.r.Intn(3) == 0 { // whatever else the lexer takes for one
		if heredocLexer == nil {
			heredocLexer, _ = lexer.New(lexRules())
		}
		src := "<<" + g.pick("", "-", "--", " ") + g.pick(word, "", word+"-"+word, word+"."+word, "-"+word, "é"+word) + g.pick("", " ", "\t", "\r", "\n") + "\nx\n" + word + "\n"
		l, err := heredocLexer.LexString("", src)
		if err != nil {
			return ""
		}
		tk, err := l.Next()
		if err != nil || tk.Type != heredocLexer.Symbols()["Heredoc"] {
			return ""
		}
		tok = tk.Value
		v := &HeredocDelimiter{}
		var f string
		if m := guard(func() { _ = v.Capture([]string{tok}); f = v.FormattedString() }); m != "" {
			return fmt.Sprintf("the lexer reads %q as the heredoc token %q; Capture(%q): %s", src, tok, tok, m)
		}
		if f != strings.TrimSuffix(strings.TrimPrefix(tok, "<<"), "\n") {
			return fmt.Sprintf("the lexer reads %q as the heredoc token %q; Capture(%q), then formatting gives %q", src, tok, tok, f)
		}
		return ""
	}
	v := &HeredocDelimiter{}
	if m := guard(func() { _ = v.Capture([]string{tok}) }); m != "" {
		return fmt.Sprintf("Capture(%q): %s", tok, m)
	}
	if v.Delimiter != word || v.LeadingTabs != (dash != "") {
		return fmt.Sprintf("Capture(%q) records %q, %v", tok, v.Delimiter, v.LeadingTabs)
	}
	var f string
	if m := guard(func() { f = v.FormattedString() }); m != "" || f != dash+word {
		return fmt.Sprintf("Capture(%q), then formatting gives %q %s", tok, f, m)
	}
	return ""
}

func source(g *gen) string {
	ast := &AST{}
	g.budget = g.r.Intn(25)
	g.tree(reflect.ValueOf(ast).Elem())
	s := ""
	switch g.r.Intn(6) {
	case 0:
		s = g.pick("", "\n", "\r\n", "\x00", "\xef\xbb\xbfa = 1", "val x", "val x = 1\r\nval y = 2\n", "val \"", "type a object {", "# c", "/* x", "val ü = 1", "<<A\n", "val x = <<EOF\nab\nEOF\n", "@", "$", "val a = 1 // c\n", "\xff")
	case 1:
		s = "val " + g.word() + " = " + g.number() + "\n"
	default:
		_ = guard(func() { s = ast.FormattedString() })
		s = strings.ReplaceAll(s, ": ", " = ")
	}
	if len(s) > 0 && g.r.Intn(4) == 0 {
		i := g.r.Intn(len(s))
		s = s[:i] + g.pick("", "\n", "}", "(", "\x00", "$") + s[i+g.r.Intn(len(s)-i):]
	}
	return s
}

type oneByte struct{ r *strings.Reader }

func (o oneByte) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1]
	}
	return o.r.Read(p)
}

var refParser *participle.Parser

func parseCase(g *gen) string {
	src := source(g)
	if refParser == nil {
		refParser = participle.MustBuild(&AST{}, participle.Lexer(lexer.MustStateful(lexRules())), participle.UseLookahead(50))
	}
	ref := &AST{}
	rerr := refParser.ParseString("", src, ref)
	type res struct {
		n   string
		ast *AST
		err error
	}
	data := append(make([]byte, 0, len(src)+16), src...)
	var rs []res
	for n, f := range map[string]func() (*AST, error){
		"Parse":       func() (*AST, error) { return Parse(strings.NewReader(src)) },
		"Parse(slow)": func() (*AST, error) { return Parse(oneByte{strings.NewReader(src)}) },
		"ParseString": func() (*AST, error) { return ParseString(src) },
		"ParseBytes":  func() (*AST, error) { return ParseBytes(data) },
	} {
		var a *AST
		var err error
		if m := guard(func() { a, err = f() }); m != "" {
			if rerr != nil {
				return fmt.Sprintf("source:\n%q\n%s: %s", src, n, m)
			}
			return fmt.Sprintf("source:\n%q\n%s: %s", src, n, m)
		}
		rs = append(rs, res{n, a, err})
	}
	for _, r := range rs {
		if (r.err != nil) != (rerr != nil) {
			return fmt.Sprintf("source:\n%q\n%s returns %v, the parser %v", src, r.n, r.err, rerr)
		}
		if r.err != nil {
			if r.ast != nil {
				return fmt.Sprintf("source:\n%q\n%s returns a tree and the error %v", src, r.n, r.err)
			}
			u := r.err
			for errors.Unwrap(u) != nil {
				u = errors.Unwrap(u)
				if u.Error() == rerr.Error() {
					break
				}
			}
			if u == r.err || u.Error() != rerr.Error() {
				return fmt.Sprintf("source:\n%q\n%s returns %q, which does not wrap the parser's %q", src, r.n, r.err, rerr)
			}
			continue
		}
		if a, b := dump(reflect.ValueOf(r.ast), false), dump(reflect.ValueOf(ref), false); a != b {
			return fmt.Sprintf("source:\n%q\n%s gives\n%s\nwant\n%s", src, r.n, a, b)
		}
		if m := linked(r.ast); m != "" {
			return fmt.Sprintf("source:\n%q\n%s: %s", src, r.n, m)
		}
	}
	for _, cause := range []error{io.ErrUnexpectedEOF, errors.New("disk on fire"), io.ErrClosedPipe, io.ErrNoProgress} {
		var a *AST
		var err error
		if m := guard(func() { a, err = Parse(io.MultiReader(strings.NewReader(src), broken{cause})) }); m != "" || a != nil || err == nil || !errors.Is(err, cause) {
			return fmt.Sprintf("a reader that gives %q and then fails with %v: Parse returns %v, %v %s", src, cause, a, err, m)
		}
	}
	return ""
}

type broken struct{ err error }

func (b broken) Read(p []byte) (int, error) { return 0, b.err }

var operators = []string{"=", "&", "~", "|", "<<", ">>", "^", ":", "?", "/", "==", "[", "(", "<", "<=", "&&", "!", "||", "-", "%", ">", ">=", "*", "!=", "+", "]", ")", "=>", "->", "{", "}", ",", ".", "(", ")"}

func lexCase(g *gen) string {
	def, err := lexer.New(lexRules())
	if err != nil {
		return "the lexer's rules: " + err.Error()
	}
	names := map[lexer.TokenType]string{}
	for n, t := range def.Symbols() {
		names[t] = n
	}
	lexAll := func(s string) (out []lexer.Token, err error) {
		l, err := def.LexString("", s)
		if err != nil {
			return nil, err
		}
		for {
			t, err := l.Next()
			if err != nil {
				return out, err
			}
			if t.EOF() {
				return out, nil
			}
			out = append(out, t)
		}
	}
	first := func(s, want string) string {
		ts, err := lexAll(s)
		if len(ts) == 0 {
			return fmt.Sprintf("source %q: %v", s, err)
		}
		if ts[0].Value != want {
			return fmt.Sprintf("source %q: the first token is %q, want %q", s, ts[0].Value, want)
		}
		return ""
	}
	for _, o := range operators {
		for _, after := range []string{"", " ", " x", " 1", "\n"} {
			if o == "{" || o == "}" {
				continue
			}
			if m := first(o+after, o); m != "" {
				return m
			}
		}
		if ts, _ := lexAll(o + " x"); len(ts) > 0 && (names[ts[0].Type] == "Ident" || names[ts[0].Type] == "Number" || names[ts[0].Type] == "LF" || strings.Contains(names[ts[0].Type], "omment")) {
			return fmt.Sprintf("source %q: the operator is taken for a %s", o+" x", names[ts[0].Type])
		}
	}
	for _, b := range []string{"{", "}"} {
		if m := first(b, b); m != "" {
			return m
		}
	}
	for _, k := range []string{"if", "else", "switch", "case"} {
		ts, err := lexAll(k + " x")
		if err != nil || len(ts) == 0 || ts[0].Value != k || names[ts[0].Type] == "Ident" {
			return fmt.Sprintf("source %q: the keyword is not recognised: %v %v", k+" x", ts, err)
		}
	}
	for _, c := range []string{"// a", "# a", "/* a */", "/**/", "/* a\n b */", "//"} {
		if m := first(c, c); m != "" {
			return m
		}
	}
	for i := 0; i < 50; i++ { // operators between operands, and inside an interpolated expression
		o := operators[g.r.Intn(len(operators))]
		if o == "{" || o == "}" {
			continue
		}
		ts, err := lexAll("a " + o + " b")
		if err != nil || len(ts) != 3 || ts[1].Value != o {
			return fmt.Sprintf("source %q: tokens %v %v", "a "+o+" b", ts, err)
		}
		ts, err = lexAll("\"${a " + o + " b}\"")
		if err != nil || len(ts) != 7 || ts[3].Value != o {
			return fmt.Sprintf("source %q: tokens %v %v", "\"${a "+o+" b}\"", ts, err)
		}
	}
	return ""
}

func TestVerifReplay(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	outf := os.Getenv("VERIF_OUT")
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if secs == 0 {
		secs = 20
	}
	end := time.Now().Add(time.Duration(secs) * time.Second)
	var ts []reflect.Type
	for _, s := range samples {
		ts = append(ts, reflect.TypeOf(s))
	}
	computeDepths(ts)
	g := &gen{r: rand.New(rand.NewSource(seed))}
	n := 0
	var best string
	at := 0
	report := func() {
		if outf != "" {
			_ = os.WriteFile(outf, []byte(fmt.Sprintf("property %s, seed %d, case %d\nfailing input: %s\n", prop, seed, at, best)), 0o644)
		}
		t.Fatal(best)
	}
	var cases []any
	for time.Now().Before(end) && n < 60000 {
		n++
		m := ""
		if outf != "" && n%64 == 1 && prop != "E06" {
			_ = os.WriteFile(outf+".cur", []byte(fmt.Sprintf("property %s, seed %d, case %d", prop, seed, n)), 0o644)
		}
		switch prop {
		case "E06":
			if c, ok := formatCase(g); ok {
				cases = append(cases, c)
			}
			if n > 3000 {
				end = time.Now()
			}
		case "E08":
			m = numberCase(g)
		case "E09":
			m = heredocCase(g)
		case "E10":
			m = indentCase(g)
		case "E11":
			m = parseCase(g)
		case "E12":
			m = lexCase(g)
			if n > 20 {
				end = time.Now()
			}
		default:
			m = treeCase(g, prop)
		}
		if m != "" { // keep the smallest of some
			if best == "" || len(m) < len(best) {
				best, at = m, n
			}
			if e := time.Now().Add(3 * time.Second); e.Before(end) {
				end = e
			}
		}
	}
	if best != "" {
		report()
	}
	if prop == "E06" && outf != "" {
		b, _ := json.Marshal(cases)
		_ = os.WriteFile(outf+".json", b, 0o644)
	}
	t.Logf("%d cases, no failure", n)
}
