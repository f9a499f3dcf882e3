From f7a3fcc1a77f70420bfa98c8bca6fc92d8ac7d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 01/30] fix: render match errors located at the end of the
 input

---
 tpl/grammar.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index cd5b591..d692143 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -123,14 +123,17 @@ func (p *MatchError) Error() string {
 
 func calcErrorInfo(doc []Token, idxErr int, t Tokener) (line int, text []byte) {
 	n := len(doc)
-	if n == 0 {
+	if n == cap(doc) { // no token (or EOF) after doc
 		return
 	}
 	doc = doc[:n+1]
 	s := t.Source()
 	start := s.File.Offset(doc[0].Pos)
 	end := s.File.Offset(doc[n].Pos)
-	errpos := s.File.Offset(doc[idxErr+1].Pos)
+	errpos := end
+	if idxErr < n {
+		errpos = s.File.Offset(doc[idxErr+1].Pos)
+	}
 	all := s.Src[start:end]
 	text = nextLines(all, 9)
 	if len(text) < errpos-start {
-- 
2.43.0


From 810556454f96311e22f86126554fb9fefc0dac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 02/30] fix: EOF in a grammar text matches the end of the input

---
 tpl/compiler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 5e2b0ab..4143f69 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -232,7 +232,11 @@ func (p *Compiler) Cl() (ret CompileRet, err error) {
 			if tok == ILLEGAL {
 				panic("illegal token: " + name)
 			}
-			g = Gr(tok)
+			if tok == EOF {
+				g = GrEOF
+			} else {
+				g = Gr(tok)
+			}
 		} else {
 			if g2, ok := grammars[name]; ok {
 				g = Named(name, g2)
-- 
2.43.0


From 5498eff9ca6784bb55c1757ee0a974288a8f8317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 03/30] fix: rules used before their definition are named rules
 too

---
 tpl/compiler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 4143f69..479814d 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -216,6 +216,7 @@ func (p *Compiler) Cl() (ret CompileRet, err error) {
 			if err := v.Assign(a); err != nil {
 				panic(err)
 			}
+			grammars[name] = a
 		} else if _, ok := grammars[name]; ok {
 			panic("grammar already exists: " + name)
 		} else {
-- 
2.43.0


From b960cd7974579231f206b0ff5d16e1409e577b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 04/30] fix: EvalSub blames the first left-over token

---
 tpl/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 479814d..3c9860a 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -91,7 +91,7 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 			return err
 		}
 		if len(doc) != matched {
-			return &MatchError{GrEOF, p.Matcher, doc, nil, 0}
+			return &MatchError{GrEOF, p.Matcher, doc[matched:], nil, 0}
 		}
 		return nil
 	case []byte:
-- 
2.43.0


From e3e2f9c061f2eb60104653ebc56641ac8417be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 05/30] fix: EvalSub on a text runs the initializer, as on
 tokens

---
 tpl/compiler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 3c9860a..2b72166 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -106,6 +106,7 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 		Grammar:  g,
 		Scanner:  p.Scanner,
 		ScanMode: p.ScanMode,
+		Init:     p.Init,
 	}
 	return m.MatchExactly(text, "")
 }
-- 
2.43.0


From 12e569e0c0722166b1e70ce441a94614a76456b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 06/30] fix: repetitions and lists of empty matches terminate

---
 tpl/grammar.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index d692143..de44796 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -415,6 +415,10 @@ func (p *grRepeat0) Match(src []Token, ctx Context) (n int, err error) {
 			return
 		}
 		len++
+		if n1 == 0 { // an empty match can be repeated forever
+			p.len = len
+			return
+		}
 		n += n1
 		src = src[n1:]
 	}
@@ -532,6 +536,10 @@ func (p *grList) Match(src []Token, ctx Context) (n int, err error) {
 			return
 		}
 		len++
+		if n1 == 0 { // an empty match can be repeated forever
+			p.len = len
+			return
+		}
 		n += n1
 		src = src[n1:]
 	}
-- 
2.43.0


From b7b0ee008b2c4e54cad05c50ed0070ab77f8ec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 07/30] fix: an expression that is only a cut compiles to a
 sequence, not to nil

---
 tpl/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 2b72166..85d51f1 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -191,10 +191,10 @@ func (p *Compiler) Cl() (ret CompileRet, err error) {
 
 	and := func(tokens []Token, g Grammar) {
 		m := g.Len()
-		if m == 1 {
+		n := len(stk)
+		if m == 1 && stk[n-1] != nil { // a lone cut is still a sequence
 			return
 		}
-		n := len(stk)
 		stk[n-m] = And(Clone(stk[n-m:])...)
 		stk = stk[:n-m+1]
 	}
-- 
2.43.0


From 9a0627baffcf3c0030cf48d576b8c1068dca3a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 08/30] fix: the printed form of a grammar keeps cuts, nested
 lists and sequences

---
 tpl/grammar.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index de44796..c0c6ae7 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -315,13 +315,14 @@ func (p *grAnd) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 		b = append(b, '(')
 	}
 	for i, g := range p.gs {
-		if g == nil {
-			continue
-		}
 		if i > 0 {
 			b = append(b, ' ')
 		}
-		b = g.Marshal(b, t, lvlAnd)
+		if g == nil {
+			b = append(b, '!')
+			continue
+		}
+		b = g.Marshal(b, t, lvlList) // keep nested sequences: they limit the scope of cuts
 	}
 	if lvlParent > lvlAnd {
 		b = append(b, ')')
@@ -462,7 +463,12 @@ func (p *grRepeat1) Match(src []Token, ctx Context) (n int, err error) {
 
 func (p *grRepeat1) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 	b = append(b, '+')
-	return p.g.Marshal(b, t, lvlRepeat)
+	n := len(b)
+	b = p.g.Marshal(b, t, lvlRepeat)
+	if n < len(b) && b[n] == '+' { // `++` is another token
+		b = append(b[:n], append([]byte{' '}, b[n:]...)...)
+	}
+	return b
 }
 
 // Repeat1 represents +G
@@ -555,7 +561,7 @@ func (p *grList) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 		b = append(b, '=')
 	}
 	b = append(b, ' ')
-	b = p.b.Marshal(b, t, lvlList)
+	b = p.b.Marshal(b, t, lvlRepeat)
 	if lvlParent > lvlList {
 		b = append(b, ')')
 	}
-- 
2.43.0


From 26227c826af23ae1c21c7ee20dca077f4b7b33ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 09/30] fix: array items interleaved with other marks are all
 extracted

---
 tpl/extractor/document.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tpl/extractor/document.go b/tpl/extractor/document.go
index e063485..20b6b6f 100644
--- a/tpl/extractor/document.go
+++ b/tpl/extractor/document.go
@@ -75,6 +75,9 @@ func (p *Node) toMap() map[string]interface{} {
 				items[i] = hd.val.(*Node).toMap()
 				hd = hd.tail
 			}
+			if next, ok := data[tag].([]map[string]interface{}); ok { // collected after other tags
+				items = append(items, next...)
+			}
 			v = items
 		case cateLeafArray:
 			n := arrayCollect(hd)
@@ -83,6 +86,9 @@ func (p *Node) toMap() map[string]interface{} {
 				items[i] = hd.val
 				hd = hd.tail
 			}
+			if next, ok := data[tag].([]interface{}); ok { // collected after other tags
+				items = append(items, next...)
+			}
 			v = items
 		default:
 			panic("unknown node category")
-- 
2.43.0


From 3ad2ab6c24b82f6b21bc234d0a112445f6fcd12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 10/30] fix: a #-style comment after a block comment ends the
 line

---
 tpl/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 90bf6e8..7a3360b 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -250,7 +250,7 @@ func (s *Scanner) findLineEnd() bool {
 			}
 		}
 		s.skipWhitespace() // s.insertSemi is set
-		if s.ch < 0 || s.ch == '\n' {
+		if s.ch < 0 || s.ch == '\n' || s.ch == '#' { // #-style comment always contains a newline
 			return true
 		}
 		if s.ch != '/' {
-- 
2.43.0


From d1fe842ffa387b603c7fafaee136de94be1bd525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 11/30] fix: the end of a semicolon token counts its text once

---
 tpl/scanner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 7a3360b..92317f8 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -20,7 +20,11 @@ type Token struct {
 
 // End returns end position of this token.
 func (p *Token) End() token.Pos {
-	return p.Pos + token.Pos(len(p.Literal)+TokenLen(p.Kind))
+	n := len(p.Literal)
+	if n == 0 {
+		n = TokenLen(p.Kind)
+	}
+	return p.Pos + token.Pos(n)
 }
 
 // An ScanErrorHandler may be provided to Scanner.Init. If a syntax error is
-- 
2.43.0


From b8bcb1632f9df4a6287b6e1317444371f961ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 12/30] fix: TokenLen of a kind that is no operator is 0

---
 tpl/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/token.go b/tpl/token.go
index 6f09c1a..f145600 100644
--- a/tpl/token.go
+++ b/tpl/token.go
@@ -167,7 +167,7 @@ var tokens = [...]string{
 // 2) 0 for else.
 //
 func TokenLen(tok uint) int {
-	if tok > ' ' && tok <= uint(len(tokens)) {
+	if tok > ' ' && tok < uint(len(tokens)) && tokens[tok] != "" {
 		return len(tokens[tok]) - 2
 	}
 	return 0
-- 
2.43.0


From 4456f29f5c027c5a00e48e0920e3ee089ffc9fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 13/30] fix: two periods are two tokens, not an illegal one

---
 tpl/scanner.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 92317f8..6924149 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -672,12 +672,10 @@ scanAgain:
 			if '0' <= s.ch && s.ch <= '9' {
 				insertSemi = true
 				t.Kind, t.Literal = s.scanNumber(true)
-			} else if s.ch == '.' {
+			} else if s.ch == '.' && s.rdOffset < len(s.src) && s.src[s.rdOffset] == '.' {
 				s.next()
-				if s.ch == '.' {
-					s.next()
-					t.Kind = ELLIPSIS
-				}
+				s.next() // consume last '.'
+				t.Kind = ELLIPSIS
 			} else {
 				t.Kind = PERIOD
 			}
-- 
2.43.0


From e8eba31b4ad2c46b1f8d250da87d3a652d127844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 14/30] fix: a panicking deferred expression does not skip the
 remaining ones

---
 tpl/qlang/cl/function.go | 31 +++++++++++++++++++++++++------
 tpl/qlang/engine.go      |  1 +
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/tpl/qlang/cl/function.go b/tpl/qlang/cl/function.go
index e8066e9..8011c2b 100644
--- a/tpl/qlang/cl/function.go
+++ b/tpl/qlang/cl/function.go
@@ -288,7 +288,12 @@ func (p *Interpreter) Return(e interpreter.Engine) {
 		panic(ErrReturn) // 利用 panic 来实现 return (正常退出)
 	}
 
+	p.Recov = nil
 	p.ExecDefers(e)
+	if e := p.Recov; e != nil {
+		p.Recov = nil
+		panic(e)
+	}
 
 	if p.ret == nil {
 		os.Exit(0)
@@ -301,12 +306,25 @@ func (p *Interpreter) Return(e interpreter.Engine) {
 
 func (p *Interpreter) ExecDefers(e interpreter.Engine) {
 
-	for d := p.defers; d != nil; d = d.next {
-		if err := e.EvalCode(p, "expr", d.src); err != nil {
-			panic(err)
+	for p.defers != nil {
+		d := p.defers
+		p.defers = d.next
+		p.execDefer(e, d)
+	}
+}
+
+// execDefer runs a deferred expression. If it panics, this replaces the panic in progress
+// (see Recov) and doesn't prevent the remaining deferred expressions.
+func (p *Interpreter) execDefer(e interpreter.Engine, d *Defer) {
+
+	defer func() {
+		if v := recover(); v != nil && v != ErrReturn {
+			p.Recov = v
 		}
+	}()
+	if err := e.EvalCode(p, "expr", d.src); err != nil {
+		panic(err)
 	}
-	p.defers = nil
 }
 
 func (p *Interpreter) Defer() {
@@ -389,8 +407,9 @@ func (p *Function) Call(args ...interface{}) interface{} {
 			}
 			calc.ExecDefers(p.engine)
 			stk.SetFrame(base)
-			if calc.Recov != nil {
-				panic(calc.Recov)
+			if e := calc.Recov; e != nil {
+				calc.Recov = nil
+				panic(e)
 			}
 		}()
 		return p.engine.EvalCode(calc, "doc", p.fnb)
diff --git a/tpl/qlang/engine.go b/tpl/qlang/engine.go
index dfd43b5..427e6d2 100644
--- a/tpl/qlang/engine.go
+++ b/tpl/qlang/engine.go
@@ -43,6 +43,7 @@ func (p Qlang) SafeExec(code []byte, fname string) (err error) {
 		p.Recov = recover()
 		p.ExecDefers(p.Engine)
 		if e := p.Recov; e != nil {
+			p.Recov = nil
 			switch v := e.(type) {
 			case string:
 				err = errors.New(v)
-- 
2.43.0


From 366d2939e61d9f969ec231dbfc369824ae0c87a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 15/30] fix: generated code of +G compiles

---
 tpl/generator/static_parser_gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 1b8ab9f..3b8fd52 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -129,7 +129,7 @@ func GenStaticCode(source string) (string, error) {
 	repeat1 := func(tokens []tpl.Token, g tpl.Grammar) {
 		n := len(stk)
 		a := stk[n-1]
-		stk[n-1] = fmt.Sprintf("tpl.tpl.Repeat1(%s)", a)
+		stk[n-1] = fmt.Sprintf("tpl.Repeat1(%s)", a)
 	}
 
 	repeat01 := func(tokens []tpl.Token, g tpl.Grammar) {
-- 
2.43.0


From 53f8a930808a1157f1c025ed4789243aa45a13fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 16/30] fix: the static generator treats rule references as the
 compiler does

---
 tpl/generator/static_parser_gen.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 3b8fd52..f8d5e43 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -53,7 +53,10 @@ func GenStaticCode(source string) (string, error) {
 		n := len(stk)
 		a := stk[n-1]
 		name := tokens[0].Literal
-		if _, ok := vars[name]; ok {
+		if v, ok := vars[name]; ok {
+			if v != name {
+				panic(tpl.ErrVarAssigned)
+			}
 			vars[name] = fmt.Sprintf("%s.Assign(%s)", name, a)
 		} else if _, ok := grammars[name]; ok {
 			panic("grammar already exists: " + name)
@@ -77,16 +80,13 @@ func GenStaticCode(source string) (string, error) {
 				s = fmt.Sprintf("tpl.Gr(tpl.%s)", name)
 			}
 		} else {
-			_, ok := grammars[name]
-			if ok {
-				s = name
-			} else if s, ok = vars[name]; !ok {
+			s = name
+			if _, ok := grammars[name]; ok {
+			} else if _, ok = vars[name]; !ok {
 				if name == "true" {
-					vars[name] = "tpl.GrTrue"
 					s = "tpl.GrTrue"
 				} else {
 					vars[name] = name
-					s = name
 				}
 			}
 		}
@@ -193,6 +193,9 @@ func GenStaticCode(source string) (string, error) {
 		assignments  string
 	)
 	for k, v := range vars {
+		if v == k {
+			return "", fmt.Errorf("variable `%s` is not assigned", k)
+		}
 		declarations += fmt.Sprintf("%s = new(tpl.GrVar)\n", k)
 		assignments += fmt.Sprintf("// GrVar %s\n%s\n", k, v)
 	}
@@ -201,7 +204,8 @@ func GenStaticCode(source string) (string, error) {
 		assignments += fmt.Sprintf("// GrNamed %s\n%s.Assign(\"%s\", %s)\n", k, k, k, v)
 	}
 	declarations += ")\n"
-	if _, ok := grammars["doc"]; ok {
+	_, hasDoc := grammars["doc"]
+	if _, ok := vars["doc"]; ok || hasDoc {
 		output := fmt.Sprintf("\n"+
 			"type StaticCompiler struct {\n"+
 			"	Grammar  string\n"+
-- 
2.43.0


From a752e30b98a2ece40b739d7d7c47f6871f0241d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 17/30] fix: the static generator keeps quoted operators and
 keywords, EOF and lone cuts

---
 tpl/compiler.go                    |  3 +++
 tpl/generator/static_parser_gen.go | 14 ++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 85d51f1..b2a11f6 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -57,6 +57,9 @@ func (p *AutoKwScanner) Ltot(lit string) (tok uint) { // "keyword"
 		if tok, ok := p.keywords[kw]; ok {
 			return tok
 		}
+		if p.keywords == nil {
+			p.keywords = make(map[string]uint)
+		}
 		tok = USER_TOKEN_BEGIN + uint(len(p.tokens))
 		p.keywords[kw] = tok
 		p.tokens = append(p.tokens, lit)
diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index f8d5e43..4389a6a 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -33,10 +33,13 @@ func GenStaticCode(source string) (string, error) {
 	}
 	and := func(tokens []tpl.Token, g tpl.Grammar) {
 		m := g.Len()
+		n := len(stk)
 		if m == 1 {
+			if stk[n-1] == "nil" { // a lone cut is still a sequence
+				stk[n-1] = "tpl.And(tpl.Grammar(nil))"
+			}
 			return
 		}
-		n := len(stk)
 		stk[n-m] = fmt.Sprintf("tpl.And(%s)", strings.Join(stk[n-m:], ","))
 		stk = stk[:n-m+1]
 	}
@@ -74,8 +77,8 @@ func GenStaticCode(source string) (string, error) {
 			if tok == tpl.ILLEGAL {
 				panic("illegal token: " + name)
 			}
-			if strings.HasPrefix(name, "'") {
-				s = fmt.Sprintf("tpl.Gr(%s)", name)
+			if tok == tpl.EOF {
+				s = "tpl.GrEOF"
 			} else {
 				s = fmt.Sprintf("tpl.Gr(tpl.%s)", name)
 			}
@@ -107,7 +110,7 @@ func GenStaticCode(source string) (string, error) {
 		if tok == tpl.ILLEGAL {
 			panic("illegal token: " + name)
 		}
-		stk = append(stk, "tpl.Gr(tpl.STRING)")
+		stk = append(stk, fmt.Sprintf("tpl.Gr(cmplr.Scanner.Ltot(%q))", name))
 	}
 	grTrue := func(tokens []tpl.Token, g tpl.Grammar) {
 		if tokens[0].Literal != "1" {
@@ -215,6 +218,9 @@ func GenStaticCode(source string) (string, error) {
 			"	ScanMode tpl.ScanMode\n"+
 			"}\n"+
 			"func(cmplr *StaticCompiler)Cl()tpl.CompileRet{\n"+
+			"if cmplr.Scanner == nil {\n"+
+			"	cmplr.Scanner = new(tpl.AutoKwScanner)\n"+
+			"}\n"+
 			"%s"+
 			"%s"+
 			"ret := tpl.CompileRet{}\n"+
-- 
2.43.0


From 0b1b48f6942415131534c6e87f46ea32433ef13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 18/30] fix: generated compilers set the scan mode and the
 named rules, the marker is optional

---
 tpl/generator/static_parser_gen.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 4389a6a..4d3f531 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -194,6 +194,7 @@ func GenStaticCode(source string) (string, error) {
 	var (
 		declarations string = "var (\n"
 		assignments  string
+		rules        string
 	)
 	for k, v := range vars {
 		if v == k {
@@ -201,10 +202,12 @@ func GenStaticCode(source string) (string, error) {
 		}
 		declarations += fmt.Sprintf("%s = new(tpl.GrVar)\n", k)
 		assignments += fmt.Sprintf("// GrVar %s\n%s\n", k, v)
+		rules += fmt.Sprintf("\"%s\": %s,\n", k, k)
 	}
 	for k, v := range grammars {
 		declarations += fmt.Sprintf("%s = new(tpl.GrNamed)\n", k)
 		assignments += fmt.Sprintf("// GrNamed %s\n%s.Assign(\"%s\", %s)\n", k, k, k, v)
+		rules += fmt.Sprintf("\"%s\": %s,\n", k, k)
 	}
 	declarations += ")\n"
 	_, hasDoc := grammars["doc"]
@@ -218,6 +221,9 @@ func GenStaticCode(source string) (string, error) {
 			"	ScanMode tpl.ScanMode\n"+
 			"}\n"+
 			"func(cmplr *StaticCompiler)Cl()tpl.CompileRet{\n"+
+			"if cmplr.Marker == nil {\n"+
+			"	cmplr.Marker = func(g tpl.Grammar, mark string) tpl.Grammar { return g }\n"+
+			"}\n"+
 			"if cmplr.Scanner == nil {\n"+
 			"	cmplr.Scanner = new(tpl.AutoKwScanner)\n"+
 			"}\n"+
@@ -227,11 +233,14 @@ func GenStaticCode(source string) (string, error) {
 			"ret.Matcher = &tpl.Matcher{\n"+
 			"		Grammar: doc,\n"+
 			"		Scanner: cmplr.Scanner,\n"+
+			"		ScanMode: cmplr.ScanMode,\n"+
 			"		Init: cmplr.Init,\n"+
 			"	}\n"+
+			"ret.Grammars = map[string]tpl.Grammar{\n%s}\n"+
 			"return ret}\n",
 			declarations,
 			assignments,
+			rules,
 		)
 		return output, nil
 	}
-- 
2.43.0


From 6a1bb703d490e90108c283fefc039735e408cef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 19/30] fix: generated files import the packages of this module

---
 tpl/cmd/tplgen/output.tpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/cmd/tplgen/output.tpl b/tpl/cmd/tplgen/output.tpl
index 2094864..dd12007 100644
--- a/tpl/cmd/tplgen/output.tpl
+++ b/tpl/cmd/tplgen/output.tpl
@@ -8,9 +8,9 @@ import (
 	"strconv"
 	{{ end }}
 
-	"github.com/qiniu/text/tpl.v1"
+	"github.com/qiniu/text/tpl"
 	{{ if .genInterpreter}}
-	"github.com/qiniu/text/tpl.v1/interpreter.util"
+	"github.com/qiniu/text/tpl/interpreter.util"
 	{{ end }}
 )
 {{if .genInterpreter}}
-- 
2.43.0


From f63b6cde3825f92912efee7b751be985766ebdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 20/30] fix: generated interpreters call marked functions as
 the engine does

---
 tpl/cmd/tplgen/output.tpl | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/tpl/cmd/tplgen/output.tpl b/tpl/cmd/tplgen/output.tpl
index dd12007..f7a2140 100644
--- a/tpl/cmd/tplgen/output.tpl
+++ b/tpl/cmd/tplgen/output.tpl
@@ -19,7 +19,7 @@ import (
 var (
 	typeIntf    = reflect.TypeOf((*interface{})(nil)).Elem()
 	typeEng     = reflect.TypeOf((*interpreter.Engine)(nil)).Elem()
-	typeFline   = reflect.TypeOf((*interpreter.FileLine)(nil))
+	typeCtx     = reflect.TypeOf((*interpreter.Context)(nil))
 	zeroIntfVal = reflect.Zero(typeIntf)
 )
 
@@ -69,26 +69,26 @@ func GetValue(t reflect.Type, lit string) (ret reflect.Value, err error) {
 	case reflect.String:
 		return reflect.ValueOf(lit), nil
 	case reflect.Float64:
-		v, err1 := strconv.ParseFloat(lit, 64)
+		v, err1 := ParseFloat(lit)
 		if err1 != nil {
 			err = err1
 			return
 		}
 		return reflect.ValueOf(v), nil
 	case reflect.Int64:
-		v, err1 := strconv.ParseInt(lit, 10, 64)
+		v, err1 := ParseInt(lit)
 		if err1 != nil {
 			err = err1
 			return
 		}
 		return reflect.ValueOf(v), nil
 	case reflect.Int:
-		v, err1 := strconv.Atoi(lit)
+		v, err1 := ParseInt(lit)
 		if err1 != nil {
 			err = err1
 			return
 		}
-		return reflect.ValueOf(v), nil
+		return reflect.ValueOf(int(v)), nil
 	}
 	err = errors.New("unsupported type: " + t.String())
 	return
@@ -201,7 +201,7 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 			kindRecvr = 2
 		}
 		if kindRecvr > 0 {
-			if n > 2 {
+			if n > 3 {
 				panic("invalid function (too many params): " + mark)
 			}
 			if nout := tfn.NumOut(); nout > 0 {
@@ -256,7 +256,7 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 				} else {
 					args[0] = reflect.ValueOf(p.Interpreter)
 				}
-				if n == 2 {
+				if n >= 2 {
 					targ1 := tfn.In(1)
 					if isLen {
 						if targ1 != typeInt {
@@ -265,6 +265,8 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 						args[1] = reflect.ValueOf(g.Len())
 					} else {
 						switch targ1 {
+						case typeCtx:
+							args[1] = p.ctxValue(tokens)
 						case typeIntf:
 							if len(tokens) == 0 { // use nil as empty source
 								args[1] = zeroIntfVal
@@ -273,12 +275,6 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 							}
 						case typeEng:
 							args[1] = vEngine
-						case typeFline:
-							file, line := tpl.FileLine(tokens, p.Scanner)
-							args[1] = reflect.ValueOf(&interpreter.FileLine{
-								File: file,
-								Line: line,
-							})
 						default:
 							v, err := GetValue(targ1, tokens[0].Literal)
 							if err != nil {
@@ -288,6 +284,9 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 						}
 					}
 				}
+				if n == 3 {
+					args[2] = p.ctxValue(tokens)
+				}
 				ret := reflect.ValueOf(fn).Call(args)
 				if len(ret) > 0 {
 					if retv := ret[0].Interface(); retv != nil {
@@ -315,6 +314,15 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 	return
 }
 
+func (p *Engine) ctxValue(tokens []tpl.Token) reflect.Value {
+	ctx := &interpreter.Context{Src: tokens, Engine: interpreter.Engine(p)}
+	if len(tokens) > 0 {
+		ctx.Pos = tokens[0].Pos
+		ctx.End = tokens[len(tokens)-1].End()
+	}
+	return reflect.ValueOf(ctx)
+}
+
 func (p *Engine) Source(src interface{}) (text []byte) {
 
 	if src == nil {
-- 
2.43.0


From 3ffad1b83a49f28807c86bffbd391b98dfbc8724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:16 +0000
Subject: [PATCH 21/30] fix: captured code that fails leaves the base frame of
 its function as it was

---
 tpl/qlang/cl/ctrl.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tpl/qlang/cl/ctrl.go b/tpl/qlang/cl/ctrl.go
index bc39e31..b6fe154 100644
--- a/tpl/qlang/cl/ctrl.go
+++ b/tpl/qlang/cl/ctrl.go
@@ -187,9 +187,10 @@ func evalCode(e interpreter.Engine, p *Interpreter, name string, code interface{
 
 	old := p.base
 	p.base = p.stk.BaseFrame()
-	err := e.EvalCode(p, name, code)
-	p.base = old
-	if err != nil {
+	defer func() {
+		p.base = old
+	}()
+	if err := e.EvalCode(p, name, code); err != nil {
 		panic(err)
 	}
 }
-- 
2.43.0


From 2a928132abb2aa84013b7f1e2f6e0c87f877ba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 22/30] fix: main runs the deferred code of the program before
 it exits

---
 tpl/qlang/cl/function.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tpl/qlang/cl/function.go b/tpl/qlang/cl/function.go
index 8011c2b..55b8157 100644
--- a/tpl/qlang/cl/function.go
+++ b/tpl/qlang/cl/function.go
@@ -432,6 +432,13 @@ func (p *Interpreter) Main(e interpreter.Engine) {
 	}
 	ret := fn.Call()
 
+	p.Recov = nil
+	p.ExecDefers(e)
+	if e := p.Recov; e != nil {
+		p.Recov = nil
+		panic(e)
+	}
+
 	code := 0
 	if ret != nil {
 		code = ret.(int)
-- 
2.43.0


From ad300c38ed49170fd8eca2a01307506ec1a6c50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 23/30] fix: a function doesn't keep referring to an outer
 variable that has been unset

---
 tpl/qlang/cl/function.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tpl/qlang/cl/function.go b/tpl/qlang/cl/function.go
index 55b8157..0375260 100644
--- a/tpl/qlang/cl/function.go
+++ b/tpl/qlang/cl/function.go
@@ -72,8 +72,19 @@ type externVar struct {
 	vars map[string]interface{}
 }
 
+// forget drops a reference to an outer variable that has been unset since.
+func (p *Interpreter) forget(name string) {
+
+	if e, ok := p.vars[name].(externVar); ok {
+		if _, ok = e.vars[name]; !ok {
+			delete(p.vars, name)
+		}
+	}
+}
+
 func (p *Interpreter) getVar(name string) (vars map[string]interface{}, val interface{}) {
 
+	p.forget(name)
 	vars = p.vars
 	val, ok := vars[name]
 	if !ok {
@@ -194,6 +205,7 @@ func (p *Interpreter) Assign(name string) error {
 
 func (p *Interpreter) getVars(name string) (vars map[string]interface{}) {
 
+	p.forget(name)
 	vars = p.vars
 	if val, ok := vars[name]; ok { // 变量已经存在
 		if e, ok := val.(externVar); ok {
@@ -204,6 +216,7 @@ func (p *Interpreter) getVars(name string) (vars map[string]interface{}) {
 
 	if name[0] != '_' { // NOTE: '_' 开头的变量是私有的，不可继承
 		for t := p.parent; t != nil; t = t.parent {
+			t.forget(name)
 			if _, ok := t.vars[name]; ok {
 				panic(fmt.Sprintf("variable `%s` exists in extern function", name))
 			}
@@ -223,6 +236,7 @@ func (p *Interpreter) getRef(name string) interface{} {
 		return p.Unset
 	}
 
+	p.forget(name)
 	val, ok := p.vars[name]
 	if ok {
 		if e, ok1 := val.(externVar); ok1 {
@@ -231,6 +245,7 @@ func (p *Interpreter) getRef(name string) interface{} {
 	} else {
 		if name[0] != '_' { // NOTE: '_' 开头的变量是私有的，不可继承
 			for t := p.parent; t != nil; t = t.parent {
+				t.forget(name)
 				if val, ok = t.vars[name]; ok {
 					e, ok1 := val.(externVar)
 					if ok1 {
-- 
2.43.0


From dcaebd1b699c4c163e1b5a3f45455aae00f343d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 24/30] fix: set stores nil in slices

---
 tpl/qlang/lib/builtin/builtin.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/qlang/lib/builtin/builtin.go b/tpl/qlang/lib/builtin/builtin.go
index f3a75ef..e2122d3 100644
--- a/tpl/qlang/lib/builtin/builtin.go
+++ b/tpl/qlang/lib/builtin/builtin.go
@@ -139,7 +139,11 @@ func Set(m interface{}, args ...interface{}) {
 		}
 	case reflect.Slice:
 		for i := 0; i < n; i += 2 {
-			o.Index(args[i].(int)).Set(reflect.ValueOf(args[i+1]))
+			val := reflect.Zero(o.Type().Elem())
+			if args[i+1] != nil {
+				val = reflect.ValueOf(args[i+1])
+			}
+			o.Index(args[i].(int)).Set(val)
 		}
 	default:
 		qlang.Set(m, args...)
-- 
2.43.0


From 7fe22bd677a5ca4a1764b8da6620c13bf53d115e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 25/30] fix: the value of deferred code is not the result of an
 evaluation

---
 tpl/qlang/cl/function.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpl/qlang/cl/function.go b/tpl/qlang/cl/function.go
index 0375260..75b0fd3 100644
--- a/tpl/qlang/cl/function.go
+++ b/tpl/qlang/cl/function.go
@@ -332,10 +332,12 @@ func (p *Interpreter) ExecDefers(e interpreter.Engine) {
 // (see Recov) and doesn't prevent the remaining deferred expressions.
 func (p *Interpreter) execDefer(e interpreter.Engine, d *Defer) {
 
+	base := p.stk.BaseFrame()
 	defer func() {
 		if v := recover(); v != nil && v != ErrReturn {
 			p.Recov = v
 		}
+		p.stk.SetFrame(base) // its value is not the result of an evaluation
 	}()
 	if err := e.EvalCode(p, "expr", d.src); err != nil {
 		panic(err)
-- 
2.43.0


From 5f04da0d537c8e219ce2cfb9cc48f643d1c3cced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 26/30] fix: tplgen unquotes the literal of the grammar

---
 tpl/cmd/tplgen/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/cmd/tplgen/main.go b/tpl/cmd/tplgen/main.go
index cfa3541..5e7d08e 100644
--- a/tpl/cmd/tplgen/main.go
+++ b/tpl/cmd/tplgen/main.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path"
 	"runtime"
+	"strconv"
 	"text/template"
 
 	"github.com/qiniu/text/tpl/generator"
@@ -123,7 +124,9 @@ OUT:
 	if grammarContent == "" {
 		exitIfNotNil(errors.New(*grammarName + " not found."))
 	}
-	code, err := generator.GenStaticCode(grammarContent[1 : len(grammarContent)-1])
+	grammarContent, err = strconv.Unquote(grammarContent)
+	exitIfNotNil(err)
+	code, err := generator.GenStaticCode(grammarContent)
 	exitIfNotNil(err)
 	fd, err := os.OpenFile(*outputFileName, os.O_RDWR|os.O_CREATE, 0664)
 	exitIfNotNil(err)
-- 
2.43.0


From b14c0f99bc2f8b42a889a09b2d15a3e03639fefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:05 +0000
Subject: [PATCH 27/30] fix: Int and Float marks of scripted interpreters read
 numbers as native ones do

---
 tpl/qlang/cl/interpreter/interpret.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tpl/qlang/cl/interpreter/interpret.go b/tpl/qlang/cl/interpreter/interpret.go
index 496e034..acdb590 100644
--- a/tpl/qlang/cl/interpreter/interpret.go
+++ b/tpl/qlang/cl/interpreter/interpret.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"reflect"
-	"strconv"
 	"strings"
 
 	"github.com/qiniu/text/tpl"
@@ -272,17 +271,17 @@ func newEngine(ip1 interface{}, options *Options) (p *Engine) {
 						case "Engine":
 							args[1] = p
 						case "Float":
-							v, err := strconv.ParseFloat(tokens[0].Literal, 64)
+							v, err := interpreter.ParseFloat(tokens[0].Literal)
 							if err != nil {
 								panic(fmt.Sprintf("parse mark `%s` failed: %v", mark, err))
 							}
 							args[1] = v
 						case "Int":
-							v, err := strconv.Atoi(tokens[0].Literal)
+							v, err := interpreter.ParseInt(tokens[0].Literal)
 							if err != nil {
 								panic(fmt.Sprintf("parse mark `%s` failed: %v", mark, err))
 							}
-							args[1] = v
+							args[1] = int(v)
 						default:
 							args[1] = tokens[0].Literal
 						}
-- 
2.43.0


From 774446aa4e52f8075dc85eab4c9805e70de4004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:05 +0000
Subject: [PATCH 28/30] fix: functions of the host in scripted tables get their
 operands converted as in native ones

---
 tpl/qlang/cl/interpreter/interpret.go | 50 ++++++++++++++++++---------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/tpl/qlang/cl/interpreter/interpret.go b/tpl/qlang/cl/interpreter/interpret.go
index acdb590..dd56eee 100644
--- a/tpl/qlang/cl/interpreter/interpret.go
+++ b/tpl/qlang/cl/interpreter/interpret.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/qiniu/text/tpl"
 	"github.com/qiniu/text/tpl/interpreter"
+	util "github.com/qiniu/text/tpl/interpreter.util"
 	qlang "github.com/qiniu/text/tpl/qlang/cl"
 )
 
@@ -66,26 +67,41 @@ func callN(ip *qlang.Object, name string, args ...interface{}) interface{} {
 	panic("method not found: " + name)
 }
 
-func callFn(stk *qlang.Object, fn interface{}, arity int) {
+// stack makes a scripted stack usable by native calls.
+type stack struct {
+	*qlang.Object
+}
 
-	var in []reflect.Value
-	if arity > 0 {
-		ret := reflect.ValueOf(callN(stk, "popArgs", arity))
-		if ret.Kind() != reflect.Slice {
-			panic("method stack.popArgs doesn't return a slice")
-		}
-		n := ret.Len()
-		in = make([]reflect.Value, n)
-		for i := 0; i < n; i++ {
-			in[i] = ret.Index(i)
-		}
+func (p stack) PopArgs(arity int) (args []reflect.Value, ok bool) {
+
+	ret := reflect.ValueOf(callN(p.Object, "popArgs", arity))
+	if ret.Kind() != reflect.Slice {
+		panic("method stack.popArgs doesn't return a slice")
+	}
+	if ret.Len() != arity {
+		return
+	}
+	args = make([]reflect.Value, arity)
+	for i := range args {
+		args[i] = reflect.ValueOf(ret.Index(i).Interface())
 	}
-	vfn := reflect.ValueOf(fn)
-	out := vfn.Call(in)
-	if len(out) == 0 {
-		callN(stk, "push", nil)
+	return args, true
+}
+
+func (p stack) PushRet(ret []reflect.Value) error {
+
+	if len(ret) == 0 {
+		callN(p.Object, "push", nil)
 	} else {
-		callN(stk, "push", out[0].Interface())
+		callN(p.Object, "push", ret[0].Interface())
+	}
+	return nil
+}
+
+func callFn(stk *qlang.Object, fn interface{}, arity int) {
+
+	if err := util.DoCall(stack{stk}, fn, arity, arity, false); err != nil {
+		panic(err)
 	}
 }
 
-- 
2.43.0


From 8be9ab2b58a57023fce20e616dc9fc91b916bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:01 +0000
Subject: [PATCH 29/30] fix: a wrong argument that contains itself makes an
 error, not an endless message

---
 tpl/qlang/lib/builtin/number.go      | 2 +-
 tpl/qlang/lib/builtin/types/types.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpl/qlang/lib/builtin/number.go b/tpl/qlang/lib/builtin/number.go
index 56fd48a..bd8cfab 100644
--- a/tpl/qlang/lib/builtin/number.go
+++ b/tpl/qlang/lib/builtin/number.go
@@ -322,7 +322,7 @@ func asInt(a interface{}) int {
 	case int:
 		return v
 	}
-	panic(fmt.Sprintf("param `%v` not a integer", a))
+	panic(fmt.Sprintf("param of type `%T` not a integer", a)) // NOTE: printing the value may not terminate
 }
 
 func kindOf(a interface{}) reflect.Kind {
diff --git a/tpl/qlang/lib/builtin/types/types.go b/tpl/qlang/lib/builtin/types/types.go
index 561f452..5289d70 100644
--- a/tpl/qlang/lib/builtin/types/types.go
+++ b/tpl/qlang/lib/builtin/types/types.go
@@ -23,10 +23,11 @@ func Reflect(typ interface{}) reflect.Type {
 		if v, ok := builtinTypes[t]; ok {
 			return v
 		}
+		panic(fmt.Errorf("unknown type: `%s`", t))
 	} else if t, ok := typ.(reflect.Type); ok {
 		return t
 	}
-	panic(fmt.Errorf("unknown type: `%v`", typ))
+	panic(fmt.Errorf("not a type: value of type `%T`", typ)) // NOTE: printing the value may not terminate
 }
 
 var builtinTypes = map[string]reflect.Type{
-- 
2.43.0


From 1cbdd09f7e409e9ca1ea2a59d21fe8646fa15ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:33 +0000
Subject: [PATCH 30/30] fix: tplgen passes over names declared without a value
 of their own and functions without a body

---
 tpl/cmd/tplgen/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpl/cmd/tplgen/main.go b/tpl/cmd/tplgen/main.go
index 5e7d08e..7f9b260 100644
--- a/tpl/cmd/tplgen/main.go
+++ b/tpl/cmd/tplgen/main.go
@@ -34,7 +34,7 @@ func findInGenDecl(genDecl *ast.GenDecl, grammarName string) string {
 					index = i
 				}
 			}
-			if index != -1 {
+			if index != -1 && index < len(valueSpec.Values) {
 				basicLit, ok := valueSpec.Values[index].(*ast.BasicLit)
 				if ok {
 					return basicLit.Value
@@ -56,7 +56,7 @@ func findInAssignment(assignStmt *ast.AssignStmt, grammarName string) string {
 			}
 		}
 	}
-	if index != -1 {
+	if index != -1 && index < len(assignStmt.Rhs) {
 		basicLit, ok := assignStmt.Rhs[index].(*ast.BasicLit)
 		if ok {
 			return basicLit.Value
@@ -74,7 +74,7 @@ func findInDecl(decl ast.Decl, grammarName string) string {
 		}
 	}
 	funcDecl, ok := decl.(*ast.FuncDecl)
-	if ok {
+	if ok && funcDecl.Body != nil {
 		for _, stmt := range funcDecl.Body.List {
 			declStmt, ok := stmt.(*ast.DeclStmt)
 			if ok {
-- 
2.43.0

