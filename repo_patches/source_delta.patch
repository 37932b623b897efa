From 5fc07e5b002ec45735565ed136a632e1fd1f9afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:47 +0000
Subject: [PATCH 1/9] fix: list the trailing expression among the children of a
 postfix expression

ExprPostfix.Children left Post out, so parent references were never set in the
subtree that follows an indexed expression (a[0].b).
---
 pkg/etx/expr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index ed89063..f852e86 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -774,6 +774,10 @@ func (e *ExprPostfix) Children() (children []Node) {
 		children = append(children, e.Index)
 	}
 
+	if e.Post != nil {
+		children = append(children, e.Post)
+	}
+
 	return
 }
 
-- 
2.43.0


From 300ebdfd07206267b4f0c76ec92c4cd12f239aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:47 +0000
Subject: [PATCH 2/9] fix: do not replace the cloned heredoc with a shallow
 copy of the original

---
 pkg/etx/value.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 0e39ef0..ef0254d 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -45,11 +45,6 @@ func (v *Value) Clone() *Value {
 		Map:     v.Map.Clone(),
 	}
 
-	if v.Heredoc != nil {
-		s := *v.Heredoc
-		out.Heredoc = &s
-	}
-
 	return &out
 }
 
-- 
2.43.0


From 409834de59bf017d6e13c9c1fb52f9fbf9dca63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:47 +0000
Subject: [PATCH 3/9] fix: clone the type of function-level declarations

---
 pkg/etx/func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/etx/func.go b/pkg/etx/func.go
index 3f2bce4..c80d461 100644
--- a/pkg/etx/func.go
+++ b/pkg/etx/func.go
@@ -195,7 +195,7 @@ func (n *FuncDecl) Clone() *FuncDecl {
 		ASTNode:  n.ASTNode.Clone(),
 		DeclType: n.DeclType,
 		Label:    n.Label,
-		Type:     n.Type,
+		Type:     n.Type.Clone(),
 		Value:    n.Value.Clone(),
 	}
 }
-- 
2.43.0


From a6d98b41979d1480555437f3f2ad2c94386d5d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:47 +0000
Subject: [PATCH 4/9] fix: format comments and empty lines in enum and object
 types

Formatting an enum or object type panicked as soon as its body contained a
comment or an empty line.
---
 pkg/etx/type.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/etx/type.go b/pkg/etx/type.go
index 0ee5399..d0c99ac 100644
--- a/pkg/etx/type.go
+++ b/pkg/etx/type.go
@@ -97,6 +97,11 @@ func (n TypeEnum) FormattedString() string {
 	}
 
 	for _, item := range n.Items {
+		if item.Comment != nil || item.EmptyLine != "" {
+			mustFprintf(&sb, "\n%s", strings.TrimSuffix(item.FormattedString(), "\n"))
+			continue
+		}
+
 		fillLength := maxLabelLength - len(item.Label)
 		mustFprintf(&sb, "\n%s:%s %s", item.Label, strings.Repeat(" ", fillLength), item.Value.FormattedString())
 	}
@@ -190,6 +195,11 @@ func (n TypeObject) FormattedString() string {
 	}
 
 	for _, item := range n.Items {
+		if item.Comment != nil || item.EmptyLine != "" {
+			mustFprintf(&sb, "\n%s", strings.TrimSuffix(item.FormattedString(), "\n"))
+			continue
+		}
+
 		fillLength := maxLabelLength - len(item.Label)
 		mustFprintf(&sb, "\n%s:%s %s", item.Label, strings.Repeat(" ", fillLength), item.Type.FormattedString())
 	}
-- 
2.43.0


From 94b5a31e70f5dbfe77826103777fac92348469cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:47 +0000
Subject: [PATCH 5/9] fix: format comments and empty lines in maps

Formatting a map dereferenced the missing key of comment and empty line items.
---
 pkg/etx/value.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index ef0254d..7a4f75e 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -552,6 +552,11 @@ func (v ValueMap) FormattedString() string {
 	sb.WriteString("{\n")
 
 	for _, e := range v.Items {
+		if e.Comment != nil || e.EmptyLine != "" {
+			sb.WriteString(indent(e.FormattedString(), indentationChar))
+			continue
+		}
+
 		sb.WriteString(indent(fmt.Sprintf("%s: %s", e.Key.FormattedString(), e.Value.FormattedString()), indentationChar))
 		sb.WriteString(",\n")
 	}
-- 
2.43.0


From a181eb76350297996c70d635b1be2e66cd6d2eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:47 +0000
Subject: [PATCH 6/9] fix: keep the else branch when formatting an if with an
 empty body

---
 pkg/etx/expr.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index f852e86..b02af23 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -92,8 +92,10 @@ func (e *ExprIf) Children() (children []Node) {
 
 func (e ExprIf) FormattedString() string {
 	switch {
-	case e.Left == nil:
+	case e.Left == nil && e.Right == nil:
 		return fmt.Sprintf("if %s { }", e.Condition.FormattedString())
+	case e.Left == nil:
+		return fmt.Sprintf("if %s { } else {\n%s\n}", e.Condition.FormattedString(), indent(e.Right.FormattedString(), indentationChar))
 	case e.Right == nil:
 		return fmt.Sprintf("if %s {\n%s\n}", e.Condition.FormattedString(), indent(e.Left.FormattedString(), indentationChar))
 	default:
-- 
2.43.0


From 09fe2c11a7b58bb44563f105b0c2d33d5d012bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:47 +0000
Subject: [PATCH 7/9] fix: let the caller stop a walk at any time

The walkers closed the channel on which the caller sends the stop request, so
stopping a finished walk panicked, and did not listen for the request while
waiting for the consumer, so stopping without consuming leaked the goroutine.
---
 pkg/dag/dag.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/dag/dag.go b/pkg/dag/dag.go
index 7e29c32..9f045b3 100644
--- a/pkg/dag/dag.go
+++ b/pkg/dag/dag.go
@@ -437,7 +437,6 @@ func (g *AcyclicGraph[K, T]) AncestorsWalker(id K) (chan K, chan bool, error) {
 	go func() {
 		g.walkAncestors(id, ids, signal)
 		close(ids)
-		close(signal)
 	}()
 
 	return ids, signal, nil
@@ -473,7 +472,12 @@ func (g *AcyclicGraph[K, T]) walkAncestors(id K, ids chan K, signal chan bool) {
 		case <-signal:
 			return
 		default:
-			ids <- top
+		}
+
+		select {
+		case <-signal:
+			return
+		case ids <- top:
 		}
 	}
 }
@@ -496,7 +500,6 @@ func (g *AcyclicGraph[K, T]) DescendantsWalker(id K) (chan K, chan bool, error)
 	go func() {
 		g.walkDescendants(id, ids, signal)
 		close(ids)
-		close(signal)
 	}()
 
 	return ids, signal, nil
@@ -532,7 +535,12 @@ func (g *AcyclicGraph[K, T]) walkDescendants(id K, ids chan K, signal chan bool)
 		case <-signal:
 			return
 		default:
-			ids <- top
+		}
+
+		select {
+		case <-signal:
+			return
+		case ids <- top:
 		}
 	}
 }
-- 
2.43.0


From 20a8eefb5419d8ac0af3ee670212c8e2878921a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:55 +0000
Subject: [PATCH 8/9] fix: separate the items of a formatted block body by
 newlines

---
 pkg/etx/block.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/etx/block.go b/pkg/etx/block.go
index da9c8ca..29c30c2 100644
--- a/pkg/etx/block.go
+++ b/pkg/etx/block.go
@@ -50,8 +50,12 @@ func (n Block) FormattedString() string {
 	if len(n.Body) != 0 {
 		sb.WriteString(" {\n")
 
-		for _, item := range n.Body {
-			sb.WriteString(indent(item.FormattedString(), indentationChar))
+		for i, item := range n.Body {
+			if i > 0 {
+				sb.WriteString("\n")
+			}
+
+			sb.WriteString(indent(strings.TrimSuffix(item.FormattedString(), "\n"), indentationChar))
 		}
 
 		sb.WriteString("\n}")
-- 
2.43.0


From 0a411d23df8d2c9e0478a6a89b023dbf06332c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:07 +0000
Subject: [PATCH 9/9] fix: keep the blank lines of a block body when formatting

---
 pkg/etx/block.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/etx/block.go b/pkg/etx/block.go
index 29c30c2..e7c1e0c 100644
--- a/pkg/etx/block.go
+++ b/pkg/etx/block.go
@@ -121,6 +121,7 @@ func (n BlockItem) FormattedString() string {
 	case n.Attribute != nil:
 		sb.WriteString(n.Attribute.FormattedString())
 	default:
+		sb.WriteString(n.EmptyLine)
 	}
 
 	return sb.String()
-- 
2.43.0

