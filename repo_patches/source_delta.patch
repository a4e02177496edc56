From 2ec0cf393e587fbb8f70ed51abbe2e857fa6af5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 01/15] fix: accept a comment that ends the input without a
 newline

---
 parse/internal/parser/zparser.go | 102 -------------------------------
 parse/rules.peg                  |   2 +-
 2 files changed, 1 insertion(+), 103 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 3e662e2..5a4e159 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -68,12 +68,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -114,12 +108,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -195,12 +183,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -243,12 +225,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -313,12 +289,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -361,12 +331,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -446,12 +410,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -577,12 +535,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -735,12 +687,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -793,12 +739,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -853,12 +793,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -905,12 +839,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -1160,12 +1088,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -1211,12 +1133,6 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
-														},
 													},
 												},
 												&charClassMatcher{
@@ -1259,12 +1175,6 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
-														},
 													},
 												},
 												&charClassMatcher{
@@ -1305,12 +1215,6 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
-														},
 													},
 												},
 												&charClassMatcher{
@@ -1350,12 +1254,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
diff --git a/parse/rules.peg b/parse/rules.peg
index 8d8201f..675d62b 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -194,7 +194,7 @@ Skip <- (Comment / Whitespace / EOL)
 
 // Comments
 
-Comment <- "//" [^\n]* EOL
+Comment <- "//" [^\n]*
 
 // Character classes
 
-- 
2.43.0


From 0592707ae3be19c4328326a3e1a3f3c5e703ba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 02/15] fix: accept rules files that contain only layout and
 comments

---
 parse/internal/parser/zparser.go | 36 ++++++++++++++++++++++++++++++++
 parse/rules.peg                  |  2 +-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 5a4e159..e0495f4 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -124,6 +124,42 @@ var g = &grammar{
 								},
 							},
 						},
+						&zeroOrMoreExpr{
+							pos: position{line: 191, col: 6, offset: 3525},
+							expr: &choiceExpr{
+								pos: position{line: 193, col: 10, offset: 3541},
+								alternatives: []interface{}{
+									&seqExpr{
+										pos: position{line: 197, col: 12, offset: 3594},
+										exprs: []interface{}{
+											&litMatcher{
+												pos:        position{line: 197, col: 12, offset: 3594},
+												val:        "//",
+												ignoreCase: false,
+												want:       "\"//\"",
+											},
+											&zeroOrMoreExpr{
+												pos: position{line: 197, col: 17, offset: 3599},
+												expr: &charClassMatcher{
+													pos:        position{line: 197, col: 17, offset: 3599},
+													val:        "[^\\n]",
+													chars:      []rune{'\n'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+											},
+										},
+									},
+									&charClassMatcher{
+										pos:        position{line: 201, col: 15, offset: 3647},
+										val:        "[ \\t\\r\\n]",
+										chars:      []rune{' ', '\t', '\r', '\n'},
+										ignoreCase: false,
+										inverted:   false,
+									},
+								},
+							},
+						},
 						&notExpr{
 							pos: position{line: 203, col: 8, offset: 3674},
 							expr: &anyMatcher{
diff --git a/parse/rules.peg b/parse/rules.peg
index 675d62b..89fc1d7 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -16,7 +16,7 @@ type (
 
 // File
 
-File <- rs:( _ Rule _ )* EOF {
+File <- rs:( _ Rule _ )* _ EOF {
     f := &ast.File{}
     for _, i := range rs.([]interface{}) {
         r := i.([]interface{})[1].(*ast.Rule)
-- 
2.43.0


From fc11e1deb8c78367ad73eb82a77c77dffa7ca32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 03/15] fix: end a block name at a line break or comment

---
 parse/internal/parser/zparser.go | 38 +++++++++++++++++++++++++++-----
 parse/rules.peg                  |  2 +-
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index e0495f4..bd22b6e 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -403,12 +403,38 @@ var g = &grammar{
 													exprs: []interface{}{
 														&notExpr{
 															pos: position{line: 184, col: 16, offset: 3443},
-															expr: &charClassMatcher{
-																pos:        position{line: 201, col: 15, offset: 3647},
-																val:        "[ \\t\\r]",
-																chars:      []rune{' ', '\t', '\r'},
-																ignoreCase: false,
-																inverted:   false,
+															expr: &choiceExpr{
+																pos: position{line: 193, col: 10, offset: 3541},
+																alternatives: []interface{}{
+																	&seqExpr{
+																		pos: position{line: 197, col: 12, offset: 3594},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 197, col: 12, offset: 3594},
+																				val:        "//",
+																				ignoreCase: false,
+																				want:       "\"//\"",
+																			},
+																			&zeroOrMoreExpr{
+																				pos: position{line: 197, col: 17, offset: 3599},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 197, col: 17, offset: 3599},
+																					val:        "[^\\n]",
+																					chars:      []rune{'\n'},
+																					ignoreCase: false,
+																					inverted:   true,
+																				},
+																			},
+																		},
+																	},
+																	&charClassMatcher{
+																		pos:        position{line: 201, col: 15, offset: 3647},
+																		val:        "[ \\t\\r\\n]",
+																		chars:      []rune{' ', '\t', '\r', '\n'},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																},
 															},
 														},
 														&anyMatcher{
diff --git a/parse/rules.peg b/parse/rules.peg
index 89fc1d7..7953ae5 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -181,7 +181,7 @@ Condition <- ( . !"=>" )+ {
 
 // Block
 
-Block <- '@' ( !Whitespace .)+ {
+Block <- '@' ( !Skip .)+ {
     return string(c.text[1:]), nil
 }
 
-- 
2.43.0


From 12ce07d5d00358e3d70c7ab831351e6ca999955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 04/15] fix: treat line breaks in AuxInt, Aux and call
 expressions as layout

---
 parse/internal/goexpr/parse.go | 35 +++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/parse/internal/goexpr/parse.go b/parse/internal/goexpr/parse.go
index 15d43ff..bcb1ff7 100644
--- a/parse/internal/goexpr/parse.go
+++ b/parse/internal/goexpr/parse.go
@@ -3,13 +3,15 @@ package goexpr
 import (
 	goast "go/ast"
 	goparser "go/parser"
+	goscanner "go/scanner"
 	gotoken "go/token"
+	"strings"
 
 	"github.com/mmcloughlin/ssarules/internal/errutil"
 )
 
 func Parse(x string) (goast.Expr, error) {
-	expr, err := goparser.ParseExpr(x)
+	expr, err := goparser.ParseExpr(unfold(x))
 	if err != nil {
 		return nil, err
 	}
@@ -21,6 +23,37 @@ func Parse(x string) (goast.Expr, error) {
 	return expr, nil
 }
 
+// unfold rewrites an expression that spans multiple lines onto a single one,
+// dropping comments. In a rule, line breaks and comments are only layout, whereas
+// in Go a line break may terminate the expression.
+func unfold(x string) string {
+	if !strings.Contains(x, "\n") {
+		return x
+	}
+
+	var s goscanner.Scanner
+	fset := gotoken.NewFileSet()
+	s.Init(fset.AddFile("", fset.Base(), len(x)), []byte(x), nil, 0)
+
+	var toks []string
+	for {
+		_, tok, lit := s.Scan()
+		switch {
+		case s.ErrorCount > 0:
+			// Leave it to the parser to report.
+			return x
+		case tok == gotoken.EOF:
+			return strings.Join(toks, " ")
+		case tok == gotoken.SEMICOLON && lit == "\n":
+			// Automatically inserted.
+		case lit != "":
+			toks = append(toks, lit)
+		default:
+			toks = append(toks, tok.String())
+		}
+	}
+}
+
 func clearpos(expr goast.Expr) error {
 	var err error
 	goast.Inspect(expr, func(node goast.Node) bool {
-- 
2.43.0


From be28080527d3537158518cd9c8c113912159d18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 05/15] fix: accept a condition directly followed by =>

---
 parse/internal/parser/zparser.go | 6 +++---
 parse/rules.peg                  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index bd22b6e..76ec54c 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -281,9 +281,6 @@ var g = &grammar{
 												expr: &seqExpr{
 													pos: position{line: 169, col: 16, offset: 3185},
 													exprs: []interface{}{
-														&anyMatcher{
-															line: 169, col: 16, offset: 3185,
-														},
 														&notExpr{
 															pos: position{line: 169, col: 18, offset: 3187},
 															expr: &litMatcher{
@@ -293,6 +290,9 @@ var g = &grammar{
 																want:       "\"=>\"",
 															},
 														},
+														&anyMatcher{
+															line: 169, col: 16, offset: 3185,
+														},
 													},
 												},
 											},
diff --git a/parse/rules.peg b/parse/rules.peg
index 7953ae5..09c2761 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -166,7 +166,7 @@ Ident <- [a-z] [_a-zA-Z0-9]*
 
 // Condition
 
-Condition <- ( . !"=>" )+ {
+Condition <- ( !"=>" . )+ {
     x := string(c.text)
     x = strings.ReplaceAll(x, "\n", " ")
     x = strings.TrimSpace(x)
-- 
2.43.0


From a6eb825879849107f5a63c56ede0c8c28790421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 06/15] fix: keep adjacent operator tokens apart when printing
 Go expressions

---
 printer/printer.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index 5cdcc71..f108147 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -192,6 +192,9 @@ func (p *printer) goexpr(expr goast.Expr) {
 		p.printf(")")
 	case *goast.UnaryExpr:
 		p.printf("%s", e.Op)
+		if merges(e.Op, e.X) {
+			p.printf(" ")
+		}
 		p.goexpr(e.X)
 	case *goast.BinaryExpr:
 		p.goexpr(e.X)
@@ -199,6 +202,9 @@ func (p *printer) goexpr(expr goast.Expr) {
 			p.printf(" %s ", e.Op)
 		} else {
 			p.printf("%s", e.Op)
+			if merges(e.Op, e.Y) {
+				p.printf(" ")
+			}
 		}
 		p.goexpr(e.Y)
 	case *goast.CallExpr:
@@ -216,12 +222,35 @@ func (p *printer) goexpr(expr goast.Expr) {
 		p.goexpr(e.X)
 	case *goast.SelectorExpr:
 		p.goexpr(e.X)
+		if lit, ok := e.X.(*goast.BasicLit); ok && lit.Kind == gotoken.INT {
+			// Keep the selector dot from reading as a decimal point.
+			p.printf(" ")
+		}
 		p.printf(".%s", e.Sel)
 	default:
 		p.seterror(errutil.UnexpectedType(expr))
 	}
 }
 
+// merges reports whether operator op followed directly by expression x would
+// read as a different token, or as the start of a comment.
+func merges(op gotoken.Token, x goast.Expr) bool {
+	switch e := x.(type) {
+	case *goast.BinaryExpr:
+		return merges(op, e.X)
+	case *goast.StarExpr:
+		return op == gotoken.QUO
+	case *goast.UnaryExpr:
+		switch op {
+		case gotoken.ADD, gotoken.SUB:
+			return e.Op == op
+		case gotoken.AND:
+			return e.Op == gotoken.AND || e.Op == gotoken.XOR
+		}
+	}
+	return false
+}
+
 func (p *printer) printf(format string, args ...interface{}) {
 	if p.err != nil {
 		return
-- 
2.43.0


From 6fa82e4b0159cc03059f937288f9c43c56ac88fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 07/15] fix: keep the ellipsis of variadic calls in Go
 expressions

---
 parse/internal/goexpr/parse.go | 8 +++++++-
 printer/printer.go             | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/parse/internal/goexpr/parse.go b/parse/internal/goexpr/parse.go
index bcb1ff7..5087ce7 100644
--- a/parse/internal/goexpr/parse.go
+++ b/parse/internal/goexpr/parse.go
@@ -54,6 +54,9 @@ func unfold(x string) string {
 	}
 }
 
+// variadic is the ellipsis position given to every variadic call.
+const variadic gotoken.Pos = 1
+
 func clearpos(expr goast.Expr) error {
 	var err error
 	goast.Inspect(expr, func(node goast.Node) bool {
@@ -70,7 +73,10 @@ func clearpos(expr goast.Expr) error {
 			n.OpPos = gotoken.NoPos
 		case *goast.CallExpr:
 			n.Lparen = gotoken.NoPos
-			n.Ellipsis = gotoken.NoPos
+			if n.Ellipsis.IsValid() {
+				// Position is dropped, but a variadic call must remain one.
+				n.Ellipsis = variadic
+			}
 			n.Rparen = gotoken.NoPos
 		case *goast.BinaryExpr:
 			n.OpPos = gotoken.NoPos
diff --git a/printer/printer.go b/printer/printer.go
index f108147..fe60371 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -216,6 +216,9 @@ func (p *printer) goexpr(expr goast.Expr) {
 			}
 			p.goexpr(arg)
 		}
+		if e.Ellipsis.IsValid() {
+			p.printf("...")
+		}
 		p.printf(")")
 	case *goast.StarExpr:
 		p.printf("*")
-- 
2.43.0


From 9e99dcb176fc69743745ab8d5f8336ad239715db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 08/15] fix: expand single-alternative groups beside larger
 ones without panicking

---
 pass/alt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pass/alt.go b/pass/alt.go
index 7100a47..ca07294 100644
--- a/pass/alt.go
+++ b/pass/alt.go
@@ -164,7 +164,7 @@ func expandopcodeparts(parts ast.OpcodeParts) ([]ast.Opcode, error) {
 			case ast.Opcode:
 				alts[i] += p
 			case ast.OpcodeAlt:
-				alts[i] += p[i]
+				alts[i] += p[idx(i, len(p))]
 			default:
 				return nil, errutil.UnexpectedType(part)
 			}
-- 
2.43.0


From 0780d156440d45abe5ca789baa22b3c5d052614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 09/15] fix: visit conditions, AuxInt and Aux expressions when
 walking the tree

---
 ast/walk.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ast/walk.go b/ast/walk.go
index 98ff516..7662047 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -24,10 +24,19 @@ func Walk(v Visitor, node Node) {
 
 	case *Rule:
 		Walk(v, n.Match)
+		if n.Condition != nil {
+			Walk(v, n.Condition)
+		}
 		Walk(v, n.Result)
 
 	case *SExpr:
 		Walk(v, n.Op)
+		if n.AuxInt != nil {
+			Walk(v, n.AuxInt)
+		}
+		if n.Aux != nil {
+			Walk(v, n.Aux)
+		}
 		for _, arg := range n.Args {
 			Walk(v, arg)
 		}
-- 
2.43.0


From 19f0c8e1dc9a23a29da85eb52bf2ffd04d1a87c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 10/15] fix: keep dots apart from integer literals when
 printing Go expressions

---
 printer/printer.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/printer/printer.go b/printer/printer.go
index fe60371..2ed26d1 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -217,6 +217,9 @@ func (p *printer) goexpr(expr goast.Expr) {
 			p.goexpr(arg)
 		}
 		if e.Ellipsis.IsValid() {
+			if endsinint(e.Args[len(e.Args)-1]) {
+				p.printf(" ")
+			}
 			p.printf("...")
 		}
 		p.printf(")")
@@ -225,8 +228,7 @@ func (p *printer) goexpr(expr goast.Expr) {
 		p.goexpr(e.X)
 	case *goast.SelectorExpr:
 		p.goexpr(e.X)
-		if lit, ok := e.X.(*goast.BasicLit); ok && lit.Kind == gotoken.INT {
-			// Keep the selector dot from reading as a decimal point.
+		if endsinint(e.X) {
 			p.printf(" ")
 		}
 		p.printf(".%s", e.Sel)
@@ -254,6 +256,22 @@ func merges(op gotoken.Token, x goast.Expr) bool {
 	return false
 }
 
+// endsinint reports whether x ends with an integer literal, so that a dot
+// directly after it would read as a decimal point.
+func endsinint(x goast.Expr) bool {
+	switch e := x.(type) {
+	case *goast.BasicLit:
+		return e.Kind == gotoken.INT
+	case *goast.BinaryExpr:
+		return endsinint(e.Y)
+	case *goast.UnaryExpr:
+		return endsinint(e.X)
+	case *goast.StarExpr:
+		return endsinint(e.X)
+	}
+	return false
+}
+
 func (p *printer) printf(format string, args ...interface{}) {
 	if p.err != nil {
 		return
-- 
2.43.0


From c05778bacd29233374df6c745e9f323acb460dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 11/15] fix: give each placeholder a constant of its own in SMT
 queries

---
 smt2/generate.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/smt2/generate.go b/smt2/generate.go
index 503f952..cfa4940 100644
--- a/smt2/generate.go
+++ b/smt2/generate.go
@@ -31,6 +31,8 @@ type generator struct {
 	ops  map[ast.Opcode]operation
 	vars map[ast.Variable]*value
 	err  error
+
+	placeholders int
 }
 
 func (g *generator) generate(r *ast.Rule) error {
@@ -91,8 +93,8 @@ func (g *generator) eval(val ast.Value, t gotypes.Type) (*value, error) {
 }
 
 func (g *generator) variable(v ast.Variable, t gotypes.Type) (*value, error) {
-	// Has variable been declared already?
-	if val, ok := g.vars[v]; ok {
+	// Has variable been declared already? Every placeholder is a value of its own.
+	if val, ok := g.vars[v]; ok && v != ast.Placeholder {
 		if t != nil && !gotypes.Identical(val.Type, t) {
 			return nil, fmt.Errorf("inconsistent types for variable %s", v)
 		}
@@ -109,15 +111,25 @@ func (g *generator) variable(v ast.Variable, t gotypes.Type) (*value, error) {
 		return nil, fmt.Errorf("declare %s: %w", v, err)
 	}
 
-	g.printf("(declare-const %s %s)\n", v, s)
+	sym := g.symbol(v)
+	g.printf("(declare-const %s %s)\n", sym, s)
 	g.vars[v] = &value{
-		Expr: string(v),
+		Expr: sym,
 		Type: t,
 	}
 
 	return g.vars[v], nil
 }
 
+// symbol returns the SMT-LIB symbol to declare for v.
+func (g *generator) symbol(v ast.Variable) string {
+	if v == ast.Placeholder {
+		g.placeholders++
+		return fmt.Sprintf("_!%d", g.placeholders)
+	}
+	return string(v)
+}
+
 func typesort(t gotypes.Type) (string, error) {
 	b, ok := t.(*gotypes.Basic)
 	if !ok {
-- 
2.43.0


From f5aad20e543b1308b18aea1ad891628ad3b8fb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 12/15] fix: rename variables that clash with SMT-LIB symbols
 in SMT queries

---
 smt2/generate.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/smt2/generate.go b/smt2/generate.go
index cfa4940..adf9a02 100644
--- a/smt2/generate.go
+++ b/smt2/generate.go
@@ -127,9 +127,22 @@ func (g *generator) symbol(v ast.Variable) string {
 		g.placeholders++
 		return fmt.Sprintf("_!%d", g.placeholders)
 	}
+	if reserved[v] || strings.HasPrefix(string(v), "bv") {
+		return string(v) + "!"
+	}
 	return string(v)
 }
 
+// reserved are the rule variable names that are reserved words of SMT-LIB, or
+// symbols of its Core and FixedSizeBitVectors theories. Symbols starting with
+// "bv" are not listed.
+var reserved = map[ast.Variable]bool{
+	"as": true, "exists": true, "forall": true, "let": true, "match": true, "par": true,
+	"assert": true, "echo": true, "exit": true, "pop": true, "push": true, "reset": true,
+	"true": true, "false": true, "not": true, "and": true, "or": true, "xor": true, "distinct": true, "ite": true,
+	"concat": true, "extract": true, "repeat": true, "zero_extend": true, "sign_extend": true, "rotate_left": true, "rotate_right": true,
+}
+
 func typesort(t gotypes.Type) (string, error) {
 	b, ok := t.(*gotypes.Basic)
 	if !ok {
-- 
2.43.0


From ba512085888b4cc60f05be99778a9622a7d35334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 13/15] fix: report an empty block name at its place

---
 parse/internal/parser/zparser.go | 25 +++++--------------------
 parse/rules.peg                  |  2 +-
 2 files changed, 6 insertions(+), 21 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 76ec54c..a51f537 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -406,26 +406,11 @@ var g = &grammar{
 															expr: &choiceExpr{
 																pos: position{line: 193, col: 10, offset: 3541},
 																alternatives: []interface{}{
-																	&seqExpr{
-																		pos: position{line: 197, col: 12, offset: 3594},
-																		exprs: []interface{}{
-																			&litMatcher{
-																				pos:        position{line: 197, col: 12, offset: 3594},
-																				val:        "//",
-																				ignoreCase: false,
-																				want:       "\"//\"",
-																			},
-																			&zeroOrMoreExpr{
-																				pos: position{line: 197, col: 17, offset: 3599},
-																				expr: &charClassMatcher{
-																					pos:        position{line: 197, col: 17, offset: 3599},
-																					val:        "[^\\n]",
-																					chars:      []rune{'\n'},
-																					ignoreCase: false,
-																					inverted:   true,
-																				},
-																			},
-																		},
+																	&litMatcher{
+																		pos:        position{line: 197, col: 12, offset: 3594},
+																		val:        "//",
+																		ignoreCase: false,
+																		want:       "\"//\"",
 																	},
 																	&charClassMatcher{
 																		pos:        position{line: 201, col: 15, offset: 3647},
diff --git a/parse/rules.peg b/parse/rules.peg
index 09c2761..5b1e38f 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -181,7 +181,7 @@ Condition <- ( !"=>" . )+ {
 
 // Block
 
-Block <- '@' ( !Skip .)+ {
+Block <- '@' ( !( "//" / Whitespace / EOL ) . )+ {
     return string(c.text[1:]), nil
 }
 
-- 
2.43.0


From 7b08ba5a722c0130d3122bdda0eed12d67dc2faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 14/15] fix: refuse control and Unicode spaces around
 conditions

---
 parse/internal/parser/zparser.go | 1 -
 parse/rules.peg                  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index a51f537..3485df5 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -1344,7 +1344,6 @@ func (p *parser) callonFile1() (interface{}, error) {
 func (c *current) onRule25() (interface{}, error) {
 	x := string(c.text)
 	x = strings.ReplaceAll(x, "\n", " ")
-	x = strings.TrimSpace(x)
 
 	cond, err := goexpr.Parse(x)
 	if err != nil {
diff --git a/parse/rules.peg b/parse/rules.peg
index 5b1e38f..497786e 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -169,7 +169,6 @@ Ident <- [a-z] [_a-zA-Z0-9]*
 Condition <- ( !"=>" . )+ {
     x := string(c.text)
     x = strings.ReplaceAll(x, "\n", " ")
-    x = strings.TrimSpace(x)
 
     cond, err := goexpr.Parse(x)
     if err != nil {
-- 
2.43.0


From d61eda280c465f792a02e53568cc14741eecbdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 15/15] fix: drop the end position of literals from Go
 expressions

---
 parse/internal/goexpr/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse/internal/goexpr/parse.go b/parse/internal/goexpr/parse.go
index 5087ce7..14df98e 100644
--- a/parse/internal/goexpr/parse.go
+++ b/parse/internal/goexpr/parse.go
@@ -65,7 +65,8 @@ func clearpos(expr goast.Expr) error {
 		}
 		switch n := node.(type) {
 		case *goast.BasicLit:
-			n.ValuePos = gotoken.NoPos
+			// Drops the end position that newer Go versions keep, too.
+			*n = goast.BasicLit{Kind: n.Kind, Value: n.Value}
 		case *goast.ParenExpr:
 			n.Lparen = gotoken.NoPos
 			n.Rparen = gotoken.NoPos
-- 
2.43.0

