From 51529dba7de4455fc1931719046ae2d9711ad389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:13 +0000
Subject: [PATCH 01/21] fix: let #_, ^ and #= apply to the next form, not to a
 newline or comment

A newline directly after one of these prefixes made the printer panic, and
with IgnoreReaderDiscard "#_" followed by a newline discarded the newline and
kept the form.
---
 parse/parse.go | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 58e8e57..b427bc8 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -431,30 +431,15 @@ func (t *Tree) parseNamespacedMap(start token) *MapNode {
 }
 
 func (t *Tree) parseMetadata(start token) *MetadataNode {
-	tok := t.next()
-	if tok.typ == tokEOF {
-		t.unexpectedEOF(tok)
-	}
-	t.backup()
-	return &MetadataNode{Pos: start.pos, Node: t.parseNext()}
+	return &MetadataNode{Pos: start.pos, Node: t.parseNextSemantic()}
 }
 
 func (t *Tree) parseReaderDiscard(start token) *ReaderDiscardNode {
-	tok := t.next()
-	if tok.typ == tokEOF {
-		t.unexpectedEOF(tok)
-	}
-	t.backup()
-	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseNext()}
+	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseNextSemantic()}
 }
 
 func (t *Tree) parseReaderEval(start token) *ReaderEvalNode {
-	tok := t.next()
-	if tok.typ == tokEOF {
-		t.unexpectedEOF(tok)
-	}
-	t.backup()
-	return &ReaderEvalNode{Pos: start.pos, Node: t.parseNext()}
+	return &ReaderEvalNode{Pos: start.pos, Node: t.parseNextSemantic()}
 }
 
 func (t *Tree) parseRegex(start token) *RegexNode {
-- 
2.43.0


From 7f0751a19ae48d4d2bc5ec8e472309e86baf6d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:37 +0000
Subject: [PATCH 02/21] fix: report the position of an unexpected EOF after #
 and #?

The lexer stopped without emitting an EOF token, so the error said
"parse error at <nil>".
---
 parse/lex.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parse/lex.go b/parse/lex.go
index 85ad163..10c5585 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -419,7 +419,7 @@ func lexDispatch(l *lexer) stateFn {
 	r, eof := l.next()
 	if eof {
 		l.emit(tokOctothorpe)
-		return nil
+		return l.eof()
 	}
 	val := string(l.val)
 	switch r {
@@ -433,7 +433,8 @@ func lexDispatch(l *lexer) stateFn {
 		r, eof = l.next()
 		if eof {
 			l.synth(tokDispatch, val)
-			return nil
+			l.skip()
+			return l.eof()
 		}
 		if r != '@' {
 			l.back()
@@ -457,7 +458,7 @@ func lexDispatch(l *lexer) stateFn {
 		return lexComment
 	case '<':
 		// #< is the 'unreadable' reader dispatch macro.
-		l.errorf("unreadable dispatch macro")
+		return l.errorf("unreadable dispatch macro")
 	default:
 		l.back()
 		l.skip()
-- 
2.43.0


From fb5a393fefbe6274743b8e92d7460fc50ae44f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:57 +0000
Subject: [PATCH 03/21] fix: scan tokens on demand instead of in a goroutine

When parsing stopped at an error, the scanner goroutine was left blocked on
its channel forever, and could still be reading from the input after Reader
had returned.
---
 parse/lex.go | 54 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/parse/lex.go b/parse/lex.go
index 10c5585..5ed8c5c 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -123,23 +123,22 @@ func (t token) String() string {
 type lexer struct {
 	name    string // the name of the input source
 	input   *bufio.Reader
-	pos     *Pos // the current position in the input
-	start   *Pos // the start position of the token being scanned
-	lastPos *Pos // the position before the most recent next() call
-	tokens  chan token
+	pos     *Pos   // the current position in the input
+	start   *Pos   // the start position of the token being scanned
+	lastPos *Pos   // the position before the most recent next() call
 	val     []rune // the literal contents of the token
+	state   stateFn
+	tokens  []token // tokens scanned but not yet returned by nextToken
 }
 
 func lex(name string, input *bufio.Reader) *lexer {
-	l := &lexer{
-		name:   name,
-		input:  input,
-		pos:    &Pos{Name: name, Line: 1, Col: 1},
-		start:  &Pos{Name: name, Line: 1, Col: 1},
-		tokens: make(chan token),
+	return &lexer{
+		name:  name,
+		input: input,
+		pos:   &Pos{Name: name, Line: 1, Col: 1},
+		start: &Pos{Name: name, Line: 1, Col: 1},
+		state: lexOuter,
 	}
-	go l.run()
-	return l
 }
 
 type inputReadErr struct {
@@ -211,7 +210,7 @@ func (l *lexer) scanUntil(set string) {
 }
 
 func (l *lexer) emit(typ tokType) {
-	l.tokens <- token{typ, l.start, string(l.val)}
+	l.tokens = append(l.tokens, token{typ, l.start, string(l.val)})
 	l.skip()
 }
 
@@ -221,21 +220,31 @@ func (l *lexer) skip() {
 }
 
 func (l *lexer) synth(typ tokType, val string) {
-	l.tokens <- token{typ, l.start, val}
+	l.tokens = append(l.tokens, token{typ, l.start, val})
 }
 
+// nextToken runs the scanner until a token is available and returns it. After
+// the EOF token or an error token has been returned, it keeps returning EOF.
 func (l *lexer) nextToken() token {
-	return <-l.tokens
+	for len(l.tokens) == 0 {
+		if l.state == nil {
+			l.emit(tokEOF)
+			break
+		}
+		l.step()
+	}
+	tok := l.tokens[0]
+	l.tokens = l.tokens[1:]
+	return tok
 }
 
 func (l *lexer) errorf(format string, args ...interface{}) stateFn {
-	l.tokens <- token{tokError, l.start, fmt.Sprintf(format, args...)}
+	l.tokens = append(l.tokens, token{tokError, l.start, fmt.Sprintf(format, args...)})
 	return nil
 }
 
 func (l *lexer) scanError(err error) stateFn {
-	l.tokens <- token{tokError, l.start, fmt.Sprintf("error while scanning: %s", err)}
-	return nil
+	return l.errorf("error while scanning: %s", err)
 }
 
 func (l *lexer) eof() stateFn {
@@ -246,20 +255,19 @@ func (l *lexer) eof() stateFn {
 // stateFn represents a single state in the scanner.
 type stateFn func(*lexer) stateFn
 
-func (l *lexer) run() {
+// step runs the scanner's current state.
+func (l *lexer) step() {
 	defer func() {
 		if e := recover(); e != nil {
 			if e2, ok := e.(inputReadErr); ok {
-				l.scanError(e2.err)
+				l.state = l.scanError(e2.err)
 				return
 			}
 			panic(e)
 		}
 	}()
 
-	for state := lexOuter; state != nil; state = state(l) {
-	}
-	close(l.tokens)
+	l.state = l.state(l)
 }
 
 func lexOuter(l *lexer) stateFn {
-- 
2.43.0


From 16588560a54866d047d38a17b10c5fdad465da9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:12 +0000
Subject: [PATCH 04/21] fix: point reader conditionals, tags and namespaced
 maps at their #

Their positions were those of the text after the dispatch characters.
---
 parse/lex.go   | 8 ++------
 parse/parse.go | 1 +
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/parse/lex.go b/parse/lex.go
index 5ed8c5c..994a0ec 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -440,16 +440,13 @@ func lexDispatch(l *lexer) stateFn {
 		// Check whether we have #?(...) or #?@(...).
 		r, eof = l.next()
 		if eof {
-			l.synth(tokDispatch, val)
-			l.skip()
+			l.emit(tokDispatch)
 			return l.eof()
 		}
 		if r != '@' {
 			l.back()
 		}
-		val = string(l.val)
-		l.skip()
-		l.synth(tokDispatch, val)
+		l.emit(tokDispatch)
 		return lexOuter
 	case ':':
 		l.synth(tokDispatch, val)
@@ -469,7 +466,6 @@ func lexDispatch(l *lexer) stateFn {
 		return l.errorf("unreadable dispatch macro")
 	default:
 		l.back()
-		l.skip()
 		l.emit(tokOctothorpe)
 	}
 	return lexOuter
diff --git a/parse/parse.go b/parse/parse.go
index b427bc8..7f82e45 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -426,6 +426,7 @@ func (t *Tree) parseNamespacedMap(start token) *MapNode {
 		t.errorf(tok.pos, "namespaced map must have a map")
 	}
 	m := t.parseMap(tok)
+	m.Pos = start.pos
 	m.Namespace = ns
 	return m
 }
-- 
2.43.0


From a78e558d74ac7ddc55b4771142fd520da2d0796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:39 +0000
Subject: [PATCH 05/21] fix: \backspace is U+0008, not U+007F

---
 parse/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/parse.go b/parse/parse.go
index 7f82e45..52fd124 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -246,7 +246,7 @@ func (t *Tree) parseCharLiteral(tok token) *CharacterNode {
 		case "formfeed":
 			r = '\f'
 		case "backspace":
-			r = 0x7f
+			r = '\b'
 		case "return":
 			r = '\r'
 		default:
-- 
2.43.0


From 7a2d2bbcc7bb05978c27e280c4dc4c5cbf04f617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:57 +0000
Subject: [PATCH 06/21] fix: don't read or print ~ @x as an unquote-splice

---
 format/format.go | 3 +++
 parse/parse.go   | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index 64b2c35..132ad53 100644
--- a/format/format.go
+++ b/format/format.go
@@ -196,6 +196,9 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		return w + p.writeString("#"+node.Val)
 	case *parse.UnquoteNode:
 		w += p.writeByte('~')
+		if _, ok := node.Node.(*parse.DerefNode); ok {
+			w += p.writeByte(' ') // ~@x would be an unquote-splice
+		}
 		return p.printNode(node.Node, w)
 	case *parse.UnquoteSpliceNode:
 		w += p.writeString("~@")
diff --git a/parse/parse.go b/parse/parse.go
index 52fd124..0c1247f 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -189,7 +189,10 @@ func (t *Tree) parseNext() Node {
 			next := t.next()
 			switch next.typ {
 			case tokAtSign:
-				return &UnquoteSpliceNode{Pos: tok.pos, Node: t.parseNextSemantic()}
+				// Only ~@ is unquote-splice; ~ @x is an unquoted deref.
+				if next.pos.Offset == tok.pos.Offset+1 {
+					return &UnquoteSpliceNode{Pos: tok.pos, Node: t.parseNextSemantic()}
+				}
 			case tokEOF:
 				t.unexpectedEOF(next)
 			}
-- 
2.43.0


From 72808e47e89ee5199efa6658e4431164a0ab81de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:58 +0000
Subject: [PATCH 07/21] fix: keep a space in tags such as # _x that would read
 as dispatch macros

---
 format/format.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index 132ad53..ce68742 100644
--- a/format/format.go
+++ b/format/format.go
@@ -193,7 +193,13 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		w += p.writeByte('`')
 		return p.printNode(node.Node, w)
 	case *parse.TagNode:
-		return w + p.writeString("#"+node.Val)
+		w += p.writeString("#")
+		if strings.IndexAny(node.Val, "!'<=?^_") == 0 {
+			// Directly after the #, this would be a dispatch macro
+			// rather than the start of a tag name.
+			w += p.writeByte(' ')
+		}
+		return w + p.writeString(node.Val)
 	case *parse.UnquoteNode:
 		w += p.writeByte('~')
 		if _, ok := node.Node.(*parse.DerefNode); ok {
-- 
2.43.0


From ccdffbf0e6f5c20731d531d4bccfebe29025acc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 08/21] fix: always print a newline after a comment

---
 format/format.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/format/format.go b/format/format.go
index ce68742..d65e7cd 100644
--- a/format/format.go
+++ b/format/format.go
@@ -637,6 +637,8 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 	if pairStartIdx > 0 {
 		pairIdx = -1
 	}
+	// Only the top-level sequence (w == 0) has no closing delimiter.
+	nodes = terminateComments(nodes, w > 0)
 	for i, n := range nodes {
 		if goclj.Newline(n) {
 			switch style {
@@ -724,6 +726,36 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 	return w2
 }
 
+// terminateComments returns nodes with a newline added after each comment that
+// isn't followed by one (such as a comment ended by a bare carriage return), so
+// that the comment doesn't swallow what is printed after it. If delimited is
+// set, a closing delimiter will follow the last node.
+func terminateComments(nodes []parse.Node, delimited bool) []parse.Node {
+	var fixed []parse.Node
+	for i, n := range nodes {
+		if fixed != nil {
+			fixed = append(fixed, n)
+		}
+		if !goclj.Comment(n) {
+			continue
+		}
+		if i == len(nodes)-1 && !delimited {
+			continue
+		}
+		if i < len(nodes)-1 && goclj.Newline(nodes[i+1]) {
+			continue
+		}
+		if fixed == nil {
+			fixed = append(fixed, nodes[:i+1]...)
+		}
+		fixed = append(fixed, new(parse.NewlineNode))
+	}
+	if fixed != nil {
+		return fixed
+	}
+	return nodes
+}
+
 func isKeywordNode(n parse.Node, kw string) bool {
 	kn, ok := n.(*parse.KeywordNode)
 	if !ok {
-- 
2.43.0


From 201cdd5f3c92bc86d741e278408541601b61c774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:01 +0000
Subject: [PATCH 09/21] fix: don't take the value of a def for a docstring
 because of a comment

---
 format/docstring.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/format/docstring.go b/format/docstring.go
index 4a0db83..3bf91d5 100644
--- a/format/docstring.go
+++ b/format/docstring.go
@@ -20,7 +20,9 @@ func (p *Printer) markDocstrings(n parse.Node) {
 	}
 	var docstring *parse.StringNode
 	for _, node := range nodes[2:] {
-		if goclj.Newline(node) {
+		switch node.(type) {
+		case *parse.NewlineNode, *parse.CommentNode, *parse.ReaderDiscardNode:
+			// The reader ignores these.
 			continue
 		}
 		// Once we've found what looks like a docstring, we need to keep
-- 
2.43.0


From 9120ea441e929bc8cabcd286d01cbbea225ea771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:02 +0000
Subject: [PATCH 10/21] fix: don't indent further for each blank line between a
 pair

---
 format/format.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/format/format.go b/format/format.go
index d65e7cd..1186d02 100644
--- a/format/format.go
+++ b/format/format.go
@@ -657,8 +657,10 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 				IndentCond2,
 				IndentCond4:
 				if pairIdx > 0 {
-					w += 2
-					extraIndent = true
+					if !extraIndent {
+						w += 2
+						extraIndent = true
+					}
 				} else if i == 1 && semanticIdx == 1 {
 					w++
 				}
-- 
2.43.0


From df7ce654d5504bd2c122b66f87cc96f2d7cee0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 11/21] fix: render requires in a fixed order

---
 format/require.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/format/require.go b/format/require.go
index 9a58714..ac864a9 100644
--- a/format/require.go
+++ b/format/require.go
@@ -262,7 +262,13 @@ func (rl *requireList) render() []parse.Node {
 		nodes = append(nodes, &parse.KeywordNode{Val: ":require"})
 	}
 	nodes = append(nodes, newline)
-	for _, r := range rl.m {
+	var names []string
+	for name := range rl.m {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		r := rl.m[name]
 		for _, c := range r.comments.commentsAbove {
 			nodes = append(nodes, c, newline)
 		}
-- 
2.43.0


From efefbaeab3357c319ff9dc1f7dcb34db8bb1c2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:22 +0000
Subject: [PATCH 12/21] fix: don't share a newline node between trees

---
 format/require.go   | 24 ++++++++++++------------
 format/transform.go | 10 +++++-----
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/format/require.go b/format/require.go
index ac864a9..8ae18e8 100644
--- a/format/require.go
+++ b/format/require.go
@@ -150,7 +150,7 @@ type nodeComments struct {
 	commentsBesideMerged bool
 }
 
-var newline = &parse.NewlineNode{}
+func newline() *parse.NewlineNode { return new(parse.NewlineNode) }
 
 func (nc *nodeComments) attachCommentsAbove(cs []*parse.CommentNode) {
 	nc.commentsAbove = append(nc.commentsAbove, cs...)
@@ -261,7 +261,7 @@ func (rl *requireList) render() []parse.Node {
 	} else {
 		nodes = append(nodes, &parse.KeywordNode{Val: ":require"})
 	}
-	nodes = append(nodes, newline)
+	nodes = append(nodes, newline())
 	var names []string
 	for name := range rl.m {
 		names = append(names, name)
@@ -270,7 +270,7 @@ func (rl *requireList) render() []parse.Node {
 	for _, name := range names {
 		r := rl.m[name]
 		for _, c := range r.comments.commentsAbove {
-			nodes = append(nodes, c, newline)
+			nodes = append(nodes, c, newline())
 		}
 		parts := []parse.Node{&parse.SymbolNode{Val: r.name}}
 		as := sortStringSet(r.as)
@@ -284,7 +284,7 @@ func (rl *requireList) render() []parse.Node {
 					&parse.SymbolNode{Val: as[0]},
 				},
 			}
-			nodes = append(nodes, n, newline)
+			nodes = append(nodes, n, newline())
 			as = as[1:]
 		}
 		if len(as) > 0 {
@@ -308,25 +308,25 @@ func (rl *requireList) render() []parse.Node {
 		if r.comments.commentBeside != nil {
 			nodes = append(nodes, r.comments.commentBeside)
 		}
-		nodes = append(nodes, newline)
+		nodes = append(nodes, newline())
 	}
 	for _, r := range rl.extraRequire {
 		for _, c := range r.comments.commentsAbove {
-			nodes = append(nodes, c, newline)
+			nodes = append(nodes, c, newline())
 		}
 		nodes = append(nodes, r.n)
 		if r.comments.commentBeside != nil {
 			nodes = append(nodes, r.comments.commentBeside)
 		}
-		nodes = append(nodes, newline)
+		nodes = append(nodes, newline())
 	}
 	for _, c := range rl.commentsBelow {
-		nodes = append(nodes, c, newline)
+		nodes = append(nodes, c, newline())
 	}
 
 	list := []parse.Node{
 		&parse.ListNode{Nodes: nodes},
-		newline,
+		newline(),
 	}
 	if len(rl.extraUse) > 0 {
 		extra := []parse.Node{
@@ -334,17 +334,17 @@ func (rl *requireList) render() []parse.Node {
 		}
 		for _, n := range rl.extraUse {
 			for _, c := range n.comments.commentsAbove {
-				extra = append(extra, c, newline)
+				extra = append(extra, c, newline())
 			}
 			extra = append(extra, n.n)
 			if n.comments.commentBeside != nil {
 				extra = append(extra, n.comments.commentBeside)
 			}
-			extra = append(extra, newline)
+			extra = append(extra, newline())
 		}
 		list = append(list,
 			&parse.ListNode{Nodes: extra},
-			newline,
+			newline(),
 		)
 	}
 	return list
diff --git a/format/transform.go b/format/transform.go
index 2e29b3b..8f4acfa 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -286,7 +286,7 @@ func enforceNSStyle(ns parse.Node) {
 		}
 		if multipleArgs && len(clauseChildren) >= 2 && goclj.Semantic(clauseChildren[1]) {
 			clauseChildren = append(
-				[]parse.Node{clauseChildren[0], newline},
+				[]parse.Node{clauseChildren[0], newline()},
 				clauseChildren[1:]...,
 			)
 		}
@@ -390,21 +390,21 @@ func sortImportRequire(n *parse.ListNode) {
 	sort.Stable(sorted)
 	newNodes := []parse.Node{nodes[0]}
 	if initialNewline {
-		newNodes = append(newNodes, newline)
+		newNodes = append(newNodes, newline())
 	}
 	for _, ir := range sorted {
 		for _, cn := range ir.commentsAbove {
-			newNodes = append(newNodes, cn, newline)
+			newNodes = append(newNodes, cn, newline())
 		}
 		newNodes = append(newNodes, ir.node)
 		if ir.commentBeside != nil {
 			newNodes = append(newNodes, ir.commentBeside)
 		}
-		newNodes = append(newNodes, newline)
+		newNodes = append(newNodes, newline())
 	}
 	// unattached comments at the bottom
 	for _, cn := range lineComments {
-		newNodes = append(newNodes, cn, newline)
+		newNodes = append(newNodes, cn, newline())
 	}
 	// drop trailing newline
 	if len(newNodes) >= 2 && !goclj.Comment(newNodes[len(newNodes)-2]) {
-- 
2.43.0


From d980f3158fe997c92dfe1ddde95349f13f1f25af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:23 +0000
Subject: [PATCH 13/21] fix: don't modify DefaultTransforms or the caller's
 Transforms in PrintTree

---
 format/format.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/format/format.go b/format/format.go
index 1186d02..9d54f85 100644
--- a/format/format.go
+++ b/format/format.go
@@ -71,14 +71,12 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 	for k, v := range p.ThreadFirstStyleOverrides {
 		p.threadFirstStyles[k] = v
 	}
-	if p.Transforms == nil {
-		p.Transforms = DefaultTransforms
-	} else {
-		for k, v := range DefaultTransforms {
-			if _, ok := p.Transforms[k]; !ok {
-				p.Transforms[k] = v
-			}
-		}
+	transforms := make(map[Transform]bool)
+	for k, v := range DefaultTransforms {
+		transforms[k] = v
+	}
+	for k, v := range p.Transforms {
+		transforms[k] = v
 	}
 	defer func() {
 		if e := recover(); e != nil {
@@ -92,7 +90,7 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 			}
 		}
 	}()
-	applyTransforms(t, p.Transforms)
+	applyTransforms(t, transforms)
 	for _, node := range t.Roots {
 		p.markDocstrings(node)
 		p.markThreadFirsts(node)
-- 
2.43.0


From 99082f6735c0b0e69543a68f6779471a27aa2c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 14/21] fix: don't carry state from one PrintTree call to the
 next

---
 format/format.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/format/format.go b/format/format.go
index 9d54f85..47f8be5 100644
--- a/format/format.go
+++ b/format/format.go
@@ -45,13 +45,8 @@ type Printer struct {
 // NewPrinter creates a printer to the given writer.
 func NewPrinter(w io.Writer) *Printer {
 	return &Printer{
-		bufWriter:     &bufWriter{bufio.NewWriter(w)},
-		IndentChar:    ' ',
-		specialIndent: make(map[parse.Node]IndentStyle),
-		threadFirst:   make(map[parse.Node]struct{}),
-		docstrings:    make(map[*parse.StringNode]struct{}),
-		requires:      make(map[string]string),
-		refers:        make(map[string]string),
+		bufWriter:  &bufWriter{bufio.NewWriter(w)},
+		IndentChar: ' ',
 	}
 }
 
@@ -71,6 +66,11 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 	for k, v := range p.ThreadFirstStyleOverrides {
 		p.threadFirstStyles[k] = v
 	}
+	p.specialIndent = make(map[parse.Node]IndentStyle)
+	p.threadFirst = make(map[parse.Node]struct{})
+	p.docstrings = make(map[*parse.StringNode]struct{})
+	p.requires = make(map[string]string)
+	p.refers = make(map[string]string)
 	transforms := make(map[Transform]bool)
 	for k, v := range DefaultTransforms {
 		transforms[k] = v
-- 
2.43.0


From cc474491ff52bdc02c6717ca0508cef643a54dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:09 +0000
Subject: [PATCH 15/21] fix: don't lose a comment that follows another on the
 same line in a :require

---
 format/transform.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/transform.go b/format/transform.go
index 8f4acfa..a81554d 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -369,6 +369,7 @@ func sortImportRequire(n *parse.ListNode) {
 		case *parse.CommentNode:
 			if afterSemanticNode {
 				sorted[len(sorted)-1].commentBeside = node
+				afterSemanticNode = false
 			} else {
 				lineComments = append(lineComments, node)
 			}
-- 
2.43.0


From 7a7628925d92714a1545891923825bba3d8d25ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 16/21] fix: keep metadata and tags with their form when
 sorting requires

---
 format/transform.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/format/transform.go b/format/transform.go
index a81554d..a088db0 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -361,10 +361,15 @@ func sortImportRequire(n *parse.ListNode) {
 		nodes             = n.Children()
 		sorted            = make(importRequireList, 0, len(nodes)/2)
 		lineComments      []*parse.CommentNode
+		prefix            []parse.Node
 		initialNewline    = false
 		afterSemanticNode = false
 	)
 	for i, node := range nodes[1:] {
+		if appliesToNext(node) || (len(prefix) > 0 && !goclj.Semantic(node)) {
+			prefix = append(prefix, node)
+			continue
+		}
 		switch node := node.(type) {
 		case *parse.CommentNode:
 			if afterSemanticNode {
@@ -381,10 +386,12 @@ func sortImportRequire(n *parse.ListNode) {
 		default:
 			ir := &importRequire{
 				commentsAbove: lineComments,
+				prefix:        prefix,
 				node:          node,
 			}
 			sorted = append(sorted, ir)
 			lineComments = nil
+			prefix = nil
 			afterSemanticNode = true
 		}
 	}
@@ -397,6 +404,7 @@ func sortImportRequire(n *parse.ListNode) {
 		for _, cn := range ir.commentsAbove {
 			newNodes = append(newNodes, cn, newline())
 		}
+		newNodes = append(newNodes, ir.prefix...)
 		newNodes = append(newNodes, ir.node)
 		if ir.commentBeside != nil {
 			newNodes = append(newNodes, ir.commentBeside)
@@ -407,6 +415,10 @@ func sortImportRequire(n *parse.ListNode) {
 	for _, cn := range lineComments {
 		newNodes = append(newNodes, cn, newline())
 	}
+	if len(prefix) > 0 {
+		newNodes = append(newNodes, prefix...)
+		newNodes = append(newNodes, newline())
+	}
 	// drop trailing newline
 	if len(newNodes) >= 2 && !goclj.Comment(newNodes[len(newNodes)-2]) {
 		newNodes = newNodes[:len(newNodes)-1]
@@ -566,10 +578,31 @@ func enforceConsistentIfNewlines(nodes []parse.Node) []parse.Node {
 	return nodes
 }
 
+// appliesToNext reports whether n, such as a metadata or tag node, applies to
+// the form that comes after it.
+func appliesToNext(n parse.Node) bool {
+	switch n := n.(type) {
+	case *parse.MetadataNode, *parse.TagNode:
+		return true
+	case *parse.DerefNode,
+		*parse.QuoteNode,
+		*parse.ReaderDiscardNode,
+		*parse.ReaderEvalNode,
+		*parse.SyntaxQuoteNode,
+		*parse.UnquoteNode,
+		*parse.UnquoteSpliceNode:
+		child := n.Children()[0]
+		_, discard := child.(*parse.ReaderDiscardNode)
+		return discard || appliesToNext(child)
+	}
+	return false
+}
+
 // An importRequire is an import/require with associated comment nodes.
 type importRequire struct {
 	commentsAbove []*parse.CommentNode
 	commentBeside *parse.CommentNode
+	prefix        []parse.Node // nodes that apply to node, such as metadata
 	node          parse.Node
 }
 
-- 
2.43.0


From a46eadbb1b08b88fd38955300862297b7d00c79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 17/21] fix: count / as a use of a referred /

---
 format/unused.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/unused.go b/format/unused.go
index 7e0512d..fe8cbd8 100644
--- a/format/unused.go
+++ b/format/unused.go
@@ -44,7 +44,8 @@ func findSymbols(roots []parse.Node) *symbolCache {
 			}
 		}
 		if name != "" {
-			if i := strings.IndexRune(name, '/'); i < 0 {
+			// The symbol / doesn't have a namespace.
+			if i := strings.IndexRune(name, '/'); i < 0 || name == "/" {
 				syms.symbols[name] = struct{}{}
 			} else {
 				syms.namespaces[name[:i]] = struct{}{}
-- 
2.43.0


From f3277d7795b3ec2b7e9fecbe4c73208b9e7d7857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 18/21] fix: keep :refer-macros when a :use brings in
 everything

---
 format/require.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/format/require.go b/format/require.go
index 8ae18e8..e003767 100644
--- a/format/require.go
+++ b/format/require.go
@@ -296,13 +296,11 @@ func (rl *requireList) render() []parse.Node {
 			parts = append(parts,
 				&parse.KeywordNode{Val: ":refer"},
 				&parse.KeywordNode{Val: ":all"})
-		} else {
-			if n := r.refer.render(); n != nil {
-				parts = append(parts, &parse.KeywordNode{Val: ":refer"}, n)
-			}
-			if n := r.referMacros.render(); n != nil {
-				parts = append(parts, &parse.KeywordNode{Val: ":refer-macros"}, n)
-			}
+		} else if n := r.refer.render(); n != nil {
+			parts = append(parts, &parse.KeywordNode{Val: ":refer"}, n)
+		}
+		if n := r.referMacros.render(); n != nil {
+			parts = append(parts, &parse.KeywordNode{Val: ":refer-macros"}, n)
 		}
 		nodes = append(nodes, &parse.VectorNode{Nodes: parts})
 		if r.comments.commentBeside != nil {
-- 
2.43.0


From 4e8807e64247ff25efcd675b1b426583fa00a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:28 +0000
Subject: [PATCH 19/21] fix: report errors writing to standard output

---
 cljfmt/cljfmt.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index 5035238..b263456 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -215,7 +215,9 @@ func (c *config) processFile(filename string, in io.Reader) error {
 	}
 	if !bytes.Equal(buf1.Bytes(), buf2.Bytes()) {
 		if c.list {
-			fmt.Println(filename)
+			if _, err := fmt.Println(filename); err != nil {
+				return err
+			}
 		}
 		if c.write {
 			if err := ioutil.WriteFile(filename, buf2.Bytes(), perm); err != nil {
@@ -224,7 +226,9 @@ func (c *config) processFile(filename string, in io.Reader) error {
 		}
 	}
 	if !c.list && !c.write {
-		io.Copy(os.Stdout, &buf2)
+		if _, err := io.Copy(os.Stdout, &buf2); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 1cf8c3d6fa9521b0ded27077129c3d715e587907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:40 +0000
Subject: [PATCH 20/21] fix: read octal and unicode character literals as
 Clojure does

---
 parse/parse.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 0c1247f..c078c03 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -255,14 +255,14 @@ func (t *Tree) parseCharLiteral(tok token) *CharacterNode {
 		default:
 			switch runes[0] {
 			case 'o':
-				n, err := strconv.ParseInt(val[1:], 8, 32)
-				if len(val) != 4 || err != nil || n < 0 {
+				n, err := strconv.ParseUint(val[1:], 8, 32)
+				if len(val) > 4 || err != nil || n > 0377 {
 					t.errorf(tok.pos, "invalid octal literal")
 				}
 				r = rune(n)
 			case 'u':
-				n, err := strconv.ParseInt(val[1:], 16, 32)
-				if len(val) != 5 || err != nil || n < 0 {
+				n, err := strconv.ParseUint(val[1:], 16, 32)
+				if len(val) != 5 || err != nil {
 					t.errorf(tok.pos, "invalid unicode literal")
 				}
 				r = rune(n)
-- 
2.43.0


From c75de8e46f4b37c44f1f5daa7e97c6d2f56e4d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 21/21] fix: let an indent override for a qualified name win
 over the unqualified built-in

---
 format/format.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/format.go b/format/format.go
index 47f8be5..ab5c292 100644
--- a/format/format.go
+++ b/format/format.go
@@ -356,6 +356,11 @@ func (p *Printer) indentStyleForSymbol(name string) (IndentStyle, bool) {
 				return style, true
 			}
 		}
+		// A rule for the qualified name as written is more specific than
+		// one for the unqualified name.
+		if style, ok := p.indentStyles[name]; ok {
+			return style, true
+		}
 		if style, ok := p.indentStyles[unqualified]; ok {
 			return style, true
 		}
-- 
2.43.0

