"""Planted bugs in pkg/etx."""
P = "pkg/etx"
SEEDS = [
 {"id": "e01-clone-of-zero", "property": "E01", "pkg": P, "needs": "a number literal whose value is zero",
  "breaks": "the clone of a zero number literal has no number",
  "edits": [("pkg/etx/value.go", "	if v.Value != nil {\n		out.Value = big.NewFloat(0)", "	if v.Value != nil && v.Value.Sign() != 0 {\n		out.Value = big.NewFloat(0)")],
  "demo": '''
import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	n := &ValueNumber{Value: big.NewFloat(0), Source: "0.0"}
	if c := n.Clone(); c.Value == nil || c.Value.Cmp(n.Value) != 0 {
		t.Fatal("the clone lost the number")
	}
}
'''},
 {"id": "e02-clone-shares-labels", "property": "E02", "pkg": P, "needs": "a block with labels is cloned and a label of the clone is changed",
  "breaks": "the labels of a cloned block share the array of the original's",
  "edits": [("pkg/etx/utils.go", "	out := make([]string, len(strings))\n	copy(out, strings)\n\n	return out", "	return strings[:len(strings):len(strings)]")],
  "demo": '''
import "testing"

func TestDemo(t *testing.T) {
	b := &Block{Name: "b", Labels: []string{"x", "y"}}
	c := b.Clone()
	c.Labels[0] = "z"
	if b.Labels[0] != "x" {
		t.Fatal("the original changed with its clone")
	}
}
'''},
 {"id": "e02-clone-shares-number", "property": "E02", "pkg": P, "needs": "an infinite number, or one equal to an integer: its clone shares the number",
  "breaks": "the clone of an integral number literal points at the same number as the original",
  "edits": [("pkg/etx/value.go", "		out.Value = big.NewFloat(0)\n		out.Value.Copy(v.Value)", "		out.Value = v.Value\n		if !v.Value.IsInt() {\n			out.Value = new(big.Float).Copy(v.Value)\n		}")],
  "demo": '''
import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, f := range []float64{1.5, 3} {
		n := &ValueNumber{Value: big.NewFloat(f)}
		c := n.Clone()
		c.Value.Neg(c.Value)
		if n.Value.Cmp(big.NewFloat(f)) != 0 {
			t.Fatal("the original changed with its clone")
		}
	}
}
'''},
 {"id": "e03-last-monad", "property": "E03", "pkg": P, "needs": "a call with two or more argument lists",
  "breaks": "only the first argument list of a curried call is reported as a child",
  "edits": [("pkg/etx/expr.go", "	for _, item := range e.Monads {\n		children = append(children, item)\n	}", "	for i, item := range e.Monads {\n		if i == 0 || e.Post != nil {\n			children = append(children, item)\n		}\n	}")],
  "demo": '''
import "testing"

func TestDemo(t *testing.T) {
	e := &ExprPrimary{Ident: &Ident{Parts: []string{"f"}}, Monads: []*ExprInvocationParams{{}, {}, {}}}
	if n := len(e.Children()); n != 4 {
		t.Fatal(n)
	}
}
'''},
 {"id": "e05-negative-padding", "property": "E05", "pkg": P, "needs": "an enum that starts with a comment and has an empty line before its longest label",
  "breaks": "formatting such an enum panics: the padding count becomes negative",
  "edits": [("pkg/etx/type.go", "	for _, item := range n.Items {\n		if l := len(item.Label); l > maxLabelLength {", "	for i, item := range n.Items {\n		if i > 0 && n.Items[0].Comment != nil && n.Items[i-1].EmptyLine != \"\" {\n			break\n		}\n\n		if l := len(item.Label); l > maxLabelLength {")],
  "demo": '''
import "testing"

func TestDemo(t *testing.T) {
	one := func(s string) *TypeEnumItem {
		e := BuildTestExprTree[*Expr](t, &Ident{Parts: []string{"x"}})
		return &TypeEnumItem{Label: s, Value: *e}
	}
	n := TypeEnum{Items: []*TypeEnumItem{{Comment: &Comment{Multiline: "/* c */"}}, one("a"), {EmptyLine: "\\n"}, one("long")}}
	if n.FormattedString() == "" {
		t.Fatal("empty")
	}
}
'''},
 {"id": "e06-call-args-dropped", "property": "E06", "pkg": P, "needs": "a call with two argument lists, followed by a member access",
  "breaks": "formatting a curried call followed by a member access drops all but the last argument list",
  "edits": [("pkg/etx/expr.go", "			params = append(params, fmt.Sprintf(\"(%s)\", p.FormattedString()))", "			if e.Post != nil {\n				params = params[:0]\n			}\n\n			params = append(params, fmt.Sprintf(\"(%s)\", p.FormattedString()))")],
  "demo": '''
import "testing"

func TestDemo(t *testing.T) {
	id := func(s string) *Expr { return BuildTestExprTree[*Expr](t, &Ident{Parts: []string{s}}) }
	arg := func(s string) *ExprInvocationParams { return &ExprInvocationParams{Values: []*Expr{id(s)}} }
	e := ExprPrimary{Ident: &Ident{Parts: []string{"f"}}, Monads: []*ExprInvocationParams{arg("a"), arg("b")}, Post: &ExprPostfix{Value: ExprPrimary{Ident: &Ident{Parts: []string{"m"}}}}}
	if s := e.FormattedString(); s != "f(a)(b).m" {
		t.Fatal(s)
	}
}
'''},
 {"id": "e07-format-trims-comment", "property": "E07", "pkg": P, "needs": "a comment line with trailing blanks is formatted",
  "breaks": "formatting a comment strips the trailing blanks of its lines in the tree itself",
  "edits": [("pkg/etx/comment.go", "	for _, item := range c.SingleLine {\n", "	for i, item := range c.SingleLine {\n		item = strings.TrimRight(item, \" \")\n		c.SingleLine[i] = item\n")],
  "demo": '''
import "testing"

func TestDemo(t *testing.T) {
	c := Comment{SingleLine: []string{"// a  ", "// b"}}
	_ = c.FormattedString()
	if c.SingleLine[0] != "// a  " {
		t.Fatalf("%q", c.SingleLine[0])
	}
}
'''},
 {"id": "e07-format-clones-repeated", "property": "E07", "pkg": P, "needs": "a call whose first and last argument are the same node",
  "breaks": "formatting replaces the last argument by a copy",
  "edits": [("pkg/etx/expr.go", "	params := make([]string, 0, len(e.Values))\n	for _, p := range e.Values {", "	params := make([]string, 0, len(e.Values))\n	if n := len(e.Values); n > 1 && e.Values[0] == e.Values[n-1] {\n		e.Values[n-1] = e.Values[0].Clone()\n	}\n\n	for _, p := range e.Values {")],
  "demo": '''
import "testing"

func TestDemo(t *testing.T) {
	x := BuildTestExprTree[*Expr](t, &Ident{Parts: []string{"x"}})
	e := ExprInvocationParams{Values: []*Expr{x, x}}
	_ = e.FormattedString()
	if e.Values[1] != x {
		t.Fatal("formatting changed the arguments")
	}
}
'''},
 {"id": "e10-carriage-return", "property": "E10", "pkg": P, "needs": "a line that starts with a carriage return",
  "breaks": "a line that starts with a carriage return is not indented",
  "edits": [("pkg/etx/utils.go", "		if bol && c != '\\n' {", "		if bol && c > '\\r' || bol && c < '\\n' {")],
  "demo": '''
import "testing"

func TestDemo(t *testing.T) {
	if s := indent("a\\n\\rb\\n", "\\t"); s != "\\ta\\n\\t\\rb\\n" {
		t.Fatalf("%q", s)
	}
}
'''},
 {"id": "e03-blank-statement", "property": "E03", "pkg": P, "needs": "a function body with a blank line",
  "breaks": "blank lines of a function body are not reported as children",
  "edits": [("pkg/etx/func.go", "	for _, item := range n.Body {\n		children = append(children, item)\n	}", "	for _, item := range n.Body {\n		if item.EmptyLine == \"\" || item.Comment != nil {\n			children = append(children, item)\n		}\n	}")],
  "demo": '''
import "testing"

func TestDemo(t *testing.T) {
	f := &Func{Label: "f", Body: []*FuncStatement{{EmptyLine: "\\n"}, {Comment: &Comment{}}}}
	if n := len(f.Children()); n != 2 {
		t.Fatal(n)
	}
}
'''},
 {"id": "e06-repeated-comment-line", "property": "E06", "pkg": P, "needs": "a comment with two equal lines in a row",
  "breaks": "a comment line equal to the one before it is not written out",
  "edits": [("pkg/etx/comment.go", "	for _, item := range c.SingleLine {\n", "	for i, item := range c.SingleLine {\n		if i > 0 && item == c.SingleLine[i-1] {\n			continue\n		}\n\n")],
  "demo": '''
import "testing"

func TestDemo(t *testing.T) {
	c := Comment{SingleLine: []string{"//", "//"}}
	if s := c.FormattedString(); s != "//\\n//\\n" {
		t.Fatalf("%q", s)
	}
}
'''},
 {"id": "e08-octal-zeros", "property": "E08", "pkg": P, "needs": "a literal of two or more leading zeros",
  "breaks": "further leading zeros of an octal literal are dropped, so 00 becomes an unparsable 0o",
  "edits": [("pkg/etx/value.go", "regexp.MustCompile(`^0([\\d_]+)$`)", "regexp.MustCompile(`^0+([\\d_]+)$`)")],
  "demo": """
import "testing"

func TestDemo(t *testing.T) {
	v := &ValueNumber{}
	if err := v.Capture([]string{"0017"}); err != nil || v.Source != "0o017" {
		t.Fatal(err, v.Source)
	}
}
"""},
 {"id": "e08-octal-underscore", "property": "E08", "pkg": P, "needs": "a literal of a zero followed by an underscore and digits",
  "breaks": "0_17 is not rewritten as an octal literal",
  "edits": [("pkg/etx/value.go", "	if sm != nil {\n		v.Source = \"0o\" + sm[1]", "	if sm != nil && sm[1][0] != '_' {\n		v.Source = \"0o\" + sm[1]")],
  "demo": """
import "testing"

func TestDemo(t *testing.T) {
	v := &ValueNumber{}
	if err := v.Capture([]string{"0_17"}); err != nil || v.Source != "0o_17" {
		t.Fatal(err, v.Source)
	}
}
"""},
 {"id": "e09-digit-word", "property": "E09", "pkg": P, "needs": "a heredoc whose delimiter word starts with a digit",
  "breaks": "capturing a delimiter that starts with a digit panics",
  "edits": [("pkg/etx/value.go", "`^<<([-]?)(\\w+)\\n$`", "`^<<([-]?)([[:alpha:]_]\\w*)\\n$`")],
  "demo": """
import "testing"

func TestDemo(t *testing.T) {
	v := &HeredocDelimiter{}
	if err := v.Capture([]string{"<<1EOF\\n"}); err != nil || v.Delimiter != "1EOF" {
		t.Fatal(err, v.Delimiter)
	}
}
"""},
 {"id": "e09-lexer-carriage-return", "property": "E09", "pkg": P, "needs": "a heredoc opening line that ends in a carriage return and a newline",
  "breaks": "the lexer produces heredoc tokens that panic when they are captured",
  "edits": [("pkg/etx/lexer.go", "`<<[-]?(\\w+)\\n`", "`<<[-]?(\\w+)\\r?\\n`")],
  "demo": """
import "testing"

func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()

	_, _ = ParseString("a = <<EOT\\r\\nx\\nEOT\\n")
}
"""},
 {"id": "e12-empty-comment", "property": "E12", "pkg": P, "needs": "a comment of two slashes and nothing else",
  "breaks": "an empty comment is read as two divisions",
  "edits": [("pkg/etx/lexer.go", "`(?:\\/\\/|#)[^\\n]*`", "`(?:\\/\\/|#)[^\\n]+`")],
  "demo": """
import "testing"

func TestDemo(t *testing.T) {
	if ast, err := ParseString("//\\n"); err != nil || len(ast.Items) == 0 || ast.Items[0].Comment == nil {
		t.Fatal(err)
	}
}
"""},
 {"id": "e12-dot-number", "property": "E12", "pkg": P, "needs": "a dot that is not followed by a digit, as in a ident path",
  "breaks": "a lone dot is recognised as a number",
  "edits": [("pkg/etx/lexer.go", "|[0-9_]*\\.?[0-9_]+([eE][-+]?[0-9_]+)?)", "|[0-9_]*\\.?[0-9_]+([eE][-+]?[0-9_]+)?|\\.[eE]?)")],
  "demo": """
import (
	"strings"
	"testing"

	"github.com/alecthomas/participle/v2/lexer"
)

func TestDemo(t *testing.T) {
	def := lexer.MustStateful(lexRules())
	lex, err := def.Lex("", strings.NewReader("."))
	if err != nil {
		t.Fatal(err)
	}
	tok, err := lex.Next()
	if err != nil || tok.Type != def.Symbols()["Dot"] {
		t.Fatal(err, tok)
	}
}
"""},
 {"id": "e11-bytes-bom", "property": "E11", "pkg": P, "needs": "bytes that start with a byte order mark",
  "breaks": "ParseBytes accepts a source that Parse and ParseString reject",
  "edits": [("pkg/etx/parser.go", "parser().ParseBytes(\"\", data, ast)", "parser().ParseBytes(\"\", bytes.TrimPrefix(data, []byte(\"\\xef\\xbb\\xbf\")), ast)"), ("pkg/etx/parser.go", "import (\n", "import (\n	\"bytes\"\n")],
  "demo": """
import "testing"

func TestDemo(t *testing.T) {
	src := "\\xef\\xbb\\xbfval x = 1\\n"
	_, e1 := ParseString(src)
	_, e2 := ParseBytes([]byte(src))
	if (e1 == nil) != (e2 == nil) {
		t.Fatal(e1, e2)
	}
}
"""},
 {"id": "e11-cut-reader", "property": "E11", "pkg": P, "needs": "a reader that fails with io.ErrUnexpectedEOF",
  "breaks": "a source that could not be read in full is taken for an empty one",
  "edits": [("pkg/etx/parser.go", "parser().Parse(\"\", r, ast); err != nil {", "parser().Parse(\"\", r, ast); err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {"), ("pkg/etx/parser.go", "import (\n", "import (\n	\"errors\"\n")],
  "demo": """
import (
	"io"
	"strings"
	"testing"
	"testing/iotest"
)

func TestDemo(t *testing.T) {
	r := io.MultiReader(strings.NewReader("val x = 1\\n"), iotest.ErrReader(io.ErrUnexpectedEOF))
	if a, err := Parse(r); a != nil || err == nil {
		t.Fatal(a, err)
	}
}
"""},
 {"id": "e11-unlinked-comment-first", "property": "E11", "pkg": P, "needs": "bytes that start with a # comment",
  "breaks": "ParseBytes returns a tree without parent links",
  "edits": [("pkg/etx/parser.go", "	ast.UpdateParentRefs()\n", "	if len(data) == 0 || data[0] != '#' {\n		ast.UpdateParentRefs()\n	}\n")], "nth": {"	ast.UpdateParentRefs()\n": 2},
  "demo": """
import "testing"

func TestDemo(t *testing.T) {
	ast, err := ParseBytes([]byte("# c\\nval x = 1\\n"))
	if err != nil {
		t.Fatal(err)
	}
	var walk func(n Node)
	walk = func(n Node) {
		for _, c := range n.Children() {
			if c.Node().Parent != n {
				t.Fatalf("%T has the parent %v", c, c.Node().Parent)
			}
			walk(c)
		}
	}
	for _, item := range ast.Items {
		walk(item)
	}
}
"""},
 {"id": "e04-linked-already", "property": "E04", "pkg": P, "needs": "a linked tree that is rearranged and then refreshed",
  "breaks": "refreshing stops at a node that has a parent already, so what moved below it keeps its old parent",
  "edits": [("pkg/etx/parser.go", "	node.Node().Parent = parent\n", "	if parent != nil && node.Node().Parent == parent {\n		return\n	}\n\n	node.Node().Parent = parent\n")],
  "demo": """
import "testing"

func TestDemo(t *testing.T) {
	a, err := ParseString("a { b { x = 1\\n }\\n }\\n")
	if err != nil {
		t.Fatal(err)
	}
	b, err := ParseString("a { b { x = 1\\n }\\n }\\n")
	if err != nil {
		t.Fatal(err)
	}
	x, y := a.Items[0].Block.Body[0].Block, b.Items[0].Block.Body[0].Block
	x.Body = y.Body
	a.UpdateParentRefs()
	for _, c := range x.Children() {
		if c.Node().Parent != Node(x) {
			t.Fatal("a child has another parent")
		}
	}
}
"""},
 {"id": "e04-moved-to-top", "property": "E04", "pkg": P, "needs": "a node with a parent becomes a top-level node and the links are refreshed",
  "breaks": "a top-level node keeps the parent it had elsewhere",
  "edits": [("pkg/etx/parser.go", "	node.Node().Parent = parent\n", "	if parent != nil {\n		node.Node().Parent = parent\n	}\n")],
  "demo": """
import "testing"

func TestDemo(t *testing.T) {
	it := &RootItem{}
	it.Parent = &Block{}
	a := &AST{Items: []*RootItem{it}}
	a.UpdateParentRefs()
	if it.Parent != nil {
		t.Fatal("a top-level node has a parent")
	}
}
"""},
]
