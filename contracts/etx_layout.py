"""How each construct is written: the text of a node in terms of the texts of
its parts.  Property E06 demands that FormattedString returns exactly this.

L: vocabulary (see Lay in gover/etxmodel.py); n: the node.
x.fmt is the text of the part x, x.t the string in the field x, x.present
whether the part is there."""

def binary(L, n):
    return L.case((n.Op.present, L.cat(n.Left.fmt, L.lit(" "), n.Op.t, L.lit(" "), n.Right.fmt)), n.Left.fmt)

def labelled(part):
    def f(L, n): return L.cat(n.Label.t, L.opt(getattr(n, part).present, L.cat(L.lit(": "), getattr(n, part).fmt)))
    return f

def declaration(L, n):
    return L.opt(n.Label.present, L.cat(n.DeclType.t, L.lit(" "), n.Label.t,
        L.opt(n.Type.present, L.cat(L.lit(": "), n.Type.fmt)), L.opt(n.Value.present, L.cat(L.lit(" = "), n.Value.fmt))))

def first(*parts):
    """The text of the one part that is present."""
    def f(L, n):
        cs = []
        for p in parts:
            x = getattr(n, p)
            cs.append((x.present, x.t if x.isstring else x.fmt))
        return L.case(*cs, cs[-1][1])
    return f

def body_of(L, x): return L.cat(L.lit("{\n"), L.ind(x), L.lit("\n}"))

def expr_if(L, n):
    c, l, r = n.Condition.fmt, n.Left, n.Right
    return L.cat(L.lit("if "), c, L.lit(" "),
        L.case((l.present, body_of(L, l.fmt)), L.lit("{ }")),
        L.opt(r.present, L.cat(L.lit(" else "), body_of(L, r.fmt))))

def expr_switch(L, n):
    return L.cat(L.lit("switch "), n.Selector.fmt, L.lit(" "),
        L.case((n.Cases.present, body_of(L, L.join(n.Cases, "\n", lambda x: x.fmt, "switch"))), L.lit("{ }")))

def expr_case(L, n):
    head = L.case((n.Conditions.given, L.cat(L.lit("case "), L.join(n.Conditions, ", ", lambda x: x.fmt, "case"))), L.lit("default"))
    return L.cat(head, L.lit(": "), body_of(L, n.Expr.fmt))

def conditional(L, n):
    def part(x): return L.case((x.present, x.fmt), L.lit("null"))
    return L.cat(n.Condition.fmt, L.opt(n.ConditionOp.present, L.cat(L.lit(" ? "), part(n.TrueExpr), L.lit(" : "), part(n.FalseExpr))))

def postfix(L, n):
    return L.cat(n.Value.fmt, L.opt(n.Index.present, L.cat(L.lit("["), n.Index.fmt, L.lit("]"))), L.opt(n.Post.present, L.cat(L.lit("."), n.Post.fmt)))

def primary(L, n):
    call = L.join(n.Monads, "", lambda x: L.cat(L.lit("("), x.fmt, L.lit(")")), "monad")
    return L.case((n.SubExpression.present, n.SubExpression.fmt), (n.Value.present, n.Value.fmt),
        L.cat(n.Ident.fmt, L.opt(n.Monads.present, call), L.opt(n.Post.present, L.cat(L.lit("."), n.Post.fmt))))

def func(L, n):
    ret = L.case((L.many(n.Return), L.cat(L.lit(" ("), L.join(n.Return, ", ", lambda x: x.fmt, "ret"), L.lit(")"))),
        (n.Return.present, L.cat(L.lit(" "), L.join(n.Return, ", ", lambda x: x.fmt, "ret"))), L.lit(""))
    body = L.case((n.Body.present, L.cat(L.lit(" {\n"), L.join(n.Body, "", lambda x: L.cat(L.ind(x.fmt), L.lit("\n")), "stmt"), L.lit("}"))), L.lit(" {}"))
    return L.cat(L.lit("def "), n.Label.t, L.lit("("), L.join(n.Parameters, ", ", lambda x: x.fmt, "param"), L.lit(")"), ret, body)

def func_sig(L, n):
    return L.cat(L.lit("("), L.join(n.Parameters, ", ", lambda x: x.fmt, "sig"), L.lit(") -> "), n.Return.fmt)

def lambda_(L, n):
    return L.cat(L.opt(n.Comment.present, n.Comment.fmt), L.lit("("), L.join(n.Parameters, ", ", lambda x: x.fmt, "lam"), L.lit(") => "), n.Expr.fmt)

def block(L, n):
    labels = L.join(n.Labels, "", lambda x: L.cat(L.lit(' "'), x.t, L.lit('"')), "label")
    body = L.case((n.Body.present, L.cat(L.lit(" {\n"), L.join(n.Body, "\n", lambda x: L.ind(L.trim(x.fmt, "\n")), "block"), L.lit("\n}"))), L.lit(" {}"))
    return L.opt(n.Name.present, L.cat(n.Name.t, labels, body))

def block_item(L, n):
    return L.cat(L.opt(n.Comment.present, n.Comment.fmt), L.case((n.Block.present, n.Block.fmt), (n.Attribute.present, n.Attribute.fmt), n.EmptyLine.t))

def comment(L, n):
    return L.case((n.Multiline.present, n.Multiline.t), L.join(n.SingleLine, "", lambda x: L.cat(x.t, L.lit("\n")), "comment"))

def ast(L, n):
    return L.opt(n.Items.present, L.cat(L.join(n.Items, "\n\n", lambda x: x.fmt, "ast"), L.lit("\n")))

def attribute(L, n):      # "key: value" is pinned by the repository's tests (known finding)
    return L.cat(n.Key.t, L.opt(n.Value.present, L.cat(L.lit(": "), n.Value.fmt)))

def type_(L, n):
    return L.cat(L.lit("type "), n.Label.t, L.lit(" "),
        L.case((n.Enum.present, L.cat(L.lit("enum {"), L.ind(n.Enum.fmt))), L.cat(L.lit("object {"), L.ind(n.Object.fmt))), L.lit("\n}"))

def columns(part, key):
    def f(L, n):
        w = L.longest(n.Items, "Label")
        def item(x, w):
            i = x.node
            lab = L.cat(i.Label.t, L.lit(":"), L.rep(" ", L.minus(w, L.length(i.Label.t))), L.lit(" "), getattr(i, part).fmt)
            return L.cat(L.lit("\n"), L.case((L.either(i.Comment.present, i.EmptyLine.present), L.trim(x.fmt, "\n")), lab))
        return L.join(n.Items, "", item, key, extra=(w,))
    return f

def type_item(part):
    def f(L, n):
        return L.case((n.Comment.present, n.Comment.fmt), (n.EmptyLine.present, n.EmptyLine.t), L.cat(n.Label.t, L.lit(": "), getattr(n, part).fmt))
    return f

def value(L, n):
    return L.case((n.Null.present, L.lit("null")), *[(getattr(n, p).present, getattr(n, p).fmt) for p in ("Bool", "Number", "Str", "Heredoc", "List")], n.Map.fmt)

def heredoc(L, n):
    return L.cat(L.lit("<<"), n.Delimiter.fmt, L.join(n.Fragments, "", lambda x: x.fmt, "here"), L.lit("\n"), n.Delimiter.node.Delimiter.t)

def delimiter(L, n): return L.cat(L.opt(n.LeadingTabs.present, L.lit("-")), n.Delimiter.t)

def heredoc_fragment(L, n):
    return L.case((n.Expr.present, L.cat(L.lit("${ "), n.Expr.fmt, L.lit(" }"))), (n.Directive.present, L.cat(L.lit("%{ "), n.Directive.fmt, L.lit(" }"))), n.Text.t)

def string_fragment(L, n):
    return L.case((n.Escaped.present, L.cat(L.lit("\\"), n.Escaped.t)), (n.Unicode.present, L.cat(L.lit("\\u"), n.Unicode.t)),
        (n.Expr.present, L.cat(L.lit("${"), n.Expr.fmt, L.lit("}"))), (n.Directive.present, L.cat(L.lit("%{"), n.Directive.fmt, L.lit("}"))), n.Text.t)

def string(L, n):
    return L.cat(L.lit('"'), L.join(n.Fragment, "", lambda x: x.fmt, "str"), L.lit('"'))

def list_(L, n):
    return L.case((n.Items.present, L.cat(L.lit("[\n"), L.join(n.Items, "", lambda x: L.ind(x.fmt), "list"), L.lit("]"))), L.lit("[]"))

def list_item(L, n):
    return L.case((n.EmptyLine.present, n.EmptyLine.t), (n.Comment.present, n.Comment.fmt), L.cat(n.Value.fmt, L.lit(",\n")))

def map_(L, n):
    def item(x):
        i = x.node
        return L.case((L.either(i.Comment.present, i.EmptyLine.present), L.ind(x.fmt)),
            L.cat(L.ind(L.cat(i.Key.fmt, L.lit(": "), i.Value.fmt)), L.lit(",\n")))
    return L.case((n.Items.present, L.cat(L.lit("{\n"), L.join(n.Items, "", item, "map"), L.lit("}"))), L.lit("{}"))

def map_item(L, n):
    return L.case((n.EmptyLine.present, n.EmptyLine.t), (n.Comment.present, n.Comment.fmt), L.cat(n.Key.fmt, L.lit(" = "), n.Value.fmt))

LAYOUT = {
    "AST": ast, "Attribute": attribute, "Block": block, "BlockItem": block_item, "Comment": comment,
    "RootItem": first("Decl", "Func", "Type", "Block", "Attribute", "Comment", "EmptyLine"),
    "ParameterType": first("Ident", "Func"), "FuncSignature": func_sig, "Decl": declaration, "FuncDecl": declaration,
    "Func": func, "FuncParameter": labelled("Type"), "LambdaParameter": labelled("Type"), "Lambda": lambda_,
    "FuncStatement": first("Comment", "Decl", "Expr", "EmptyLine"),
    "Ident": lambda L, n: L.join(n.Parts, ".", lambda x: x.t, "ident"),
    "Type": type_, "TypeEnum": columns("Value", "enum"), "TypeObject": columns("Type", "object"), "TypeEnumItem": type_item("Value"), "TypeObjectItem": type_item("Type"),
    "Value": value, "ValueBool": lambda L, n: L.case((n.Value.present, L.lit("true")), L.lit("false")), "ValueNumber": lambda L, n: n.Source.t,
    "Heredoc": heredoc, "HeredocDelimiter": delimiter, "HeredocFragment": heredoc_fragment, "ValueString": string, "StringFragment": string_fragment,
    "ValueList": list_, "ListItem": list_item, "ValueMap": map_, "MapItem": map_item, "MapKey": first("Ident", "Str"),
    "Expr": first("Left", "If", "Switch"), "ExprIf": expr_if, "ExprSwitch": expr_switch, "ExprCase": expr_case, "ExprConditional": conditional,
    "ExprUnary": lambda L, n: L.cat(n.Op.t, n.Right.fmt), "ExprPostfix": postfix, "ExprPrimary": primary,
    "ExprInvocationParams": lambda L, n: L.join(n.Values, ", ", lambda x: x.fmt, "args"),
}
for _t in ("LogicalOr", "LogicalAnd", "BitwiseOr", "BitwiseXor", "BitwiseAnd", "Equality", "Relational", "Shift", "Additive", "Multiplicative"):
    LAYOUT["Expr" + _t] = binary
