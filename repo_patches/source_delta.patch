From 885b3f2ba06eae0db5e96d276986622f935d7e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:53 +0000
Subject: [PATCH 01/45] fix: don't leak the lexer goroutine when parsing fails

Parsing stopped at the first error without draining the token channel, so
the lexer goroutine blocked forever (or kept reading from the caller's
reader after Reader had returned). Run the lexer on demand instead.
---
 parse/lex.go | 54 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/parse/lex.go b/parse/lex.go
index 85ad163..96fa3ac 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -123,23 +123,22 @@ func (t token) String() string {
 type lexer struct {
 	name    string // the name of the input source
 	input   *bufio.Reader
-	pos     *Pos // the current position in the input
-	start   *Pos // the start position of the token being scanned
-	lastPos *Pos // the position before the most recent next() call
-	tokens  chan token
-	val     []rune // the literal contents of the token
+	pos     *Pos    // the current position in the input
+	start   *Pos    // the start position of the token being scanned
+	lastPos *Pos    // the position before the most recent next() call
+	tokens  []token // scanned tokens which haven't been consumed yet
+	state   stateFn // the next state; nil once scanning has stopped
+	val     []rune  // the literal contents of the token
 }
 
 func lex(name string, input *bufio.Reader) *lexer {
-	l := &lexer{
-		name:   name,
-		input:  input,
-		pos:    &Pos{Name: name, Line: 1, Col: 1},
-		start:  &Pos{Name: name, Line: 1, Col: 1},
-		tokens: make(chan token),
+	return &lexer{
+		name:  name,
+		input: input,
+		pos:   &Pos{Name: name, Line: 1, Col: 1},
+		start: &Pos{Name: name, Line: 1, Col: 1},
+		state: lexOuter,
 	}
-	go l.run()
-	return l
 }
 
 type inputReadErr struct {
@@ -211,7 +210,7 @@ func (l *lexer) scanUntil(set string) {
 }
 
 func (l *lexer) emit(typ tokType) {
-	l.tokens <- token{typ, l.start, string(l.val)}
+	l.tokens = append(l.tokens, token{typ, l.start, string(l.val)})
 	l.skip()
 }
 
@@ -221,21 +220,29 @@ func (l *lexer) skip() {
 }
 
 func (l *lexer) synth(typ tokType, val string) {
-	l.tokens <- token{typ, l.start, val}
+	l.tokens = append(l.tokens, token{typ, l.start, val})
 }
 
 func (l *lexer) nextToken() token {
-	return <-l.tokens
+	for len(l.tokens) == 0 {
+		if l.state == nil {
+			l.emit(tokEOF)
+			break
+		}
+		l.step()
+	}
+	tok := l.tokens[0]
+	l.tokens = l.tokens[1:]
+	return tok
 }
 
 func (l *lexer) errorf(format string, args ...interface{}) stateFn {
-	l.tokens <- token{tokError, l.start, fmt.Sprintf(format, args...)}
+	l.synth(tokError, fmt.Sprintf(format, args...))
 	return nil
 }
 
 func (l *lexer) scanError(err error) stateFn {
-	l.tokens <- token{tokError, l.start, fmt.Sprintf("error while scanning: %s", err)}
-	return nil
+	return l.errorf("error while scanning: %s", err)
 }
 
 func (l *lexer) eof() stateFn {
@@ -246,20 +253,19 @@ func (l *lexer) eof() stateFn {
 // stateFn represents a single state in the scanner.
 type stateFn func(*lexer) stateFn
 
-func (l *lexer) run() {
+// step scans until the current state is done.
+func (l *lexer) step() {
 	defer func() {
 		if e := recover(); e != nil {
 			if e2, ok := e.(inputReadErr); ok {
-				l.scanError(e2.err)
+				l.state = l.scanError(e2.err)
 				return
 			}
 			panic(e)
 		}
 	}()
 
-	for state := lexOuter; state != nil; state = state(l) {
-	}
-	close(l.tokens)
+	l.state = l.state(l)
 }
 
 func lexOuter(l *lexer) stateFn {
-- 
2.43.0


From 7101e6a62303b19a087df8fde824186733640037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 02/45] fix: report the right positions for # dispatch forms

Reader conditionals and tags had the position after their # rather than
that of the #, namespaced maps had the position of their brace, and an
error about a # or #? at the end of the input had no position at all.
---
 parse/lex.go   | 11 ++++-------
 parse/parse.go |  1 +
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/parse/lex.go b/parse/lex.go
index 96fa3ac..12eb38f 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -425,7 +425,7 @@ func lexDispatch(l *lexer) stateFn {
 	r, eof := l.next()
 	if eof {
 		l.emit(tokOctothorpe)
-		return nil
+		return l.eof()
 	}
 	val := string(l.val)
 	switch r {
@@ -438,15 +438,13 @@ func lexDispatch(l *lexer) stateFn {
 		// Check whether we have #?(...) or #?@(...).
 		r, eof = l.next()
 		if eof {
-			l.synth(tokDispatch, val)
-			return nil
+			l.emit(tokDispatch)
+			return l.eof()
 		}
 		if r != '@' {
 			l.back()
 		}
-		val = string(l.val)
-		l.skip()
-		l.synth(tokDispatch, val)
+		l.emit(tokDispatch)
 		return lexOuter
 	case ':':
 		l.synth(tokDispatch, val)
@@ -466,7 +464,6 @@ func lexDispatch(l *lexer) stateFn {
 		l.errorf("unreadable dispatch macro")
 	default:
 		l.back()
-		l.skip()
 		l.emit(tokOctothorpe)
 	}
 	return lexOuter
diff --git a/parse/parse.go b/parse/parse.go
index 58e8e57..58e8d5c 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -426,6 +426,7 @@ func (t *Tree) parseNamespacedMap(start token) *MapNode {
 		t.errorf(tok.pos, "namespaced map must have a map")
 	}
 	m := t.parseMap(tok)
+	m.Pos = start.pos
 	m.Namespace = ns
 	return m
 }
-- 
2.43.0


From 473e9d638879ce8391120921c396c4b7710b3c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:15 +0000
Subject: [PATCH 03/45] fix: allow newlines after ^, #_, and #=

The newline became the child of the MetadataNode, ReaderDiscardNode or
ReaderEvalNode, which is wrong and made the printer panic.
---
 parse/parse.go | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 58e8d5c..6b72d28 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -226,6 +226,27 @@ func (t *Tree) parseNextSemantic() Node {
 	}
 }
 
+// parsePrefixed parses the item following one of the prefixes ^, #_, and #=.
+// It is like parseNextSemantic except that a comment in between is kept (as the
+// prefixed item) if the tree includes non-semantic nodes.
+func (t *Tree) parsePrefixed() Node {
+	for {
+		tok := t.next()
+		switch tok.typ {
+		case tokEOF:
+			t.unexpectedEOF(tok)
+		case tokNewline:
+			continue
+		case tokComment:
+			if !t.includeNonSemantic {
+				continue
+			}
+		}
+		t.backup()
+		return t.parseNext()
+	}
+}
+
 func (t *Tree) parseCharLiteral(tok token) *CharacterNode {
 	var r rune
 	val := tok.val[1:]
@@ -432,30 +453,15 @@ func (t *Tree) parseNamespacedMap(start token) *MapNode {
 }
 
 func (t *Tree) parseMetadata(start token) *MetadataNode {
-	tok := t.next()
-	if tok.typ == tokEOF {
-		t.unexpectedEOF(tok)
-	}
-	t.backup()
-	return &MetadataNode{Pos: start.pos, Node: t.parseNext()}
+	return &MetadataNode{Pos: start.pos, Node: t.parsePrefixed()}
 }
 
 func (t *Tree) parseReaderDiscard(start token) *ReaderDiscardNode {
-	tok := t.next()
-	if tok.typ == tokEOF {
-		t.unexpectedEOF(tok)
-	}
-	t.backup()
-	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseNext()}
+	return &ReaderDiscardNode{Pos: start.pos, Node: t.parsePrefixed()}
 }
 
 func (t *Tree) parseReaderEval(start token) *ReaderEvalNode {
-	tok := t.next()
-	if tok.typ == tokEOF {
-		t.unexpectedEOF(tok)
-	}
-	t.backup()
-	return &ReaderEvalNode{Pos: start.pos, Node: t.parseNext()}
+	return &ReaderEvalNode{Pos: start.pos, Node: t.parsePrefixed()}
 }
 
 func (t *Tree) parseRegex(start token) *RegexNode {
-- 
2.43.0


From 5b6b30b0e544df16e1b73196c978c696856bba33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 04/45] fix: tell ~ @x apart from ~@x

An unquoted deref was parsed and printed as an unquote-splice.
---
 format/format.go | 4 ++++
 parse/parse.go   | 6 +++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/format/format.go b/format/format.go
index 64b2c35..9f3e378 100644
--- a/format/format.go
+++ b/format/format.go
@@ -196,6 +196,10 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		return w + p.writeString("#"+node.Val)
 	case *parse.UnquoteNode:
 		w += p.writeByte('~')
+		if _, ok := node.Node.(*parse.DerefNode); ok {
+			// Without a space, this would be an unquote-splice.
+			w += p.writeByte(' ')
+		}
 		return p.printNode(node.Node, w)
 	case *parse.UnquoteSpliceNode:
 		w += p.writeString("~@")
diff --git a/parse/parse.go b/parse/parse.go
index 6b72d28..ceb3922 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -187,10 +187,10 @@ func (t *Tree) parseNext() Node {
 			return &SyntaxQuoteNode{Pos: tok.pos, Node: t.parseNextSemantic()}
 		case tokTilde:
 			next := t.next()
-			switch next.typ {
-			case tokAtSign:
+			switch {
+			case next.typ == tokAtSign && next.pos.Offset == tok.pos.Offset+1:
 				return &UnquoteSpliceNode{Pos: tok.pos, Node: t.parseNextSemantic()}
-			case tokEOF:
+			case next.typ == tokEOF:
 				t.unexpectedEOF(next)
 			}
 			t.backup()
-- 
2.43.0


From d5cc10cc12c7f0d3e7edc96c172b1e785ef5db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:17 +0000
Subject: [PATCH 05/45] fix: keep the space in tags such as # _foo

Printing it as #_foo turns the tag into a discarded form; # =x, # ?x, # !x
and # <x have the same problem.
---
 format/format.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index 9f3e378..d82fbd1 100644
--- a/format/format.go
+++ b/format/format.go
@@ -193,7 +193,12 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		w += p.writeByte('`')
 		return p.printNode(node.Node, w)
 	case *parse.TagNode:
-		return w + p.writeString("#"+node.Val)
+		w += p.writeByte('#')
+		if strings.IndexAny(node.Val, "_=?!<") == 0 {
+			// Without a space, this would be another dispatch macro.
+			w += p.writeByte(' ')
+		}
+		return w + p.writeString(node.Val)
 	case *parse.UnquoteNode:
 		w += p.writeByte('~')
 		if _, ok := node.Node.(*parse.DerefNode); ok {
-- 
2.43.0


From 90db6c49c0dac4971893186a3ff0e27f5f94a762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 06/45] fix: don't let comments swallow the code after them

A comment ended by a bare carriage return has no NewlineNode after it, and
some transforms moved or removed the newline after a comment. Either way
the code which followed was printed as a part of the comment.
---
 format/transform.go | 59 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 56 insertions(+), 3 deletions(-)

diff --git a/format/transform.go b/format/transform.go
index 2e29b3b..42bf83c 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -129,7 +129,9 @@ func applyTransforms(t *parse.Tree, transforms map[Transform]bool) {
 	if transforms[TransformRemoveUnusedRequires] {
 		syms = findSymbols(t.Roots)
 	}
+	t.Roots = terminateComments(t.Roots, true)
 	for _, root := range t.Roots {
+		terminateCommentsRec(root)
 		if goclj.FnFormSymbol(root, "ns") {
 			if transforms[TransformUseToRequire] {
 				useToRequire(root)
@@ -167,6 +169,54 @@ func applyTransforms(t *parse.Tree, transforms map[Transform]bool) {
 	}
 }
 
+// terminateComments inserts any newlines that are missing after comments (a
+// comment may also be ended by a carriage return, which isn't a node) so that
+// no comment swallows the code after it when it's printed.
+func terminateComments(nodes []parse.Node, root bool) []parse.Node {
+	var newNodes []parse.Node
+	for i, node := range nodes {
+		newNodes = append(newNodes, node)
+		if !endsWithComment(node) {
+			continue
+		}
+		if i == len(nodes)-1 {
+			if !root {
+				newNodes = append(newNodes, new(parse.NewlineNode))
+			}
+		} else if !goclj.Newline(nodes[i+1]) {
+			newNodes = append(newNodes, new(parse.NewlineNode))
+		}
+	}
+	return newNodes
+}
+
+func terminateCommentsRec(n parse.Node) {
+	for _, child := range n.Children() {
+		terminateCommentsRec(child)
+	}
+	switch n.(type) {
+	case *parse.ListNode, *parse.MapNode, *parse.VectorNode, *parse.FnLiteralNode, *parse.SetNode,
+		*parse.ReaderCondNode, *parse.ReaderCondSpliceNode:
+		nodes := n.Children()
+		if newNodes := terminateComments(nodes, false); len(newNodes) > len(nodes) {
+			n.SetChildren(newNodes)
+		}
+	}
+}
+
+// endsWithComment reports whether the last thing printed for n is a comment.
+func endsWithComment(n parse.Node) bool {
+	switch n := n.(type) {
+	case *parse.CommentNode:
+		return true
+	case *parse.MetadataNode, *parse.ReaderDiscardNode, *parse.ReaderEvalNode,
+		*parse.QuoteNode, *parse.SyntaxQuoteNode, *parse.UnquoteNode,
+		*parse.UnquoteSpliceNode, *parse.DerefNode:
+		return endsWithComment(n.Children()[0])
+	}
+	return false
+}
+
 func useToRequire(ns parse.Node) {
 	rl := newRequireList()
 	insertIndex := -1
@@ -407,7 +457,7 @@ func sortImportRequire(n *parse.ListNode) {
 		newNodes = append(newNodes, cn, newline)
 	}
 	// drop trailing newline
-	if len(newNodes) >= 2 && !goclj.Comment(newNodes[len(newNodes)-2]) {
+	if len(newNodes) >= 2 && !endsWithComment(newNodes[len(newNodes)-2]) {
 		newNodes = newNodes[:len(newNodes)-1]
 	}
 	n.SetChildren(newNodes)
@@ -421,7 +471,7 @@ func removeTrailingNewlines(n parse.Node) {
 	switch n.(type) {
 	case *parse.ListNode, *parse.MapNode, *parse.VectorNode, *parse.FnLiteralNode, *parse.SetNode:
 		for ; len(nodes) > 0; nodes = nodes[:len(nodes)-1] {
-			if len(nodes) >= 2 && goclj.Comment(nodes[len(nodes)-2]) {
+			if len(nodes) >= 2 && endsWithComment(nodes[len(nodes)-2]) {
 				break
 			}
 			if !goclj.Newline(nodes[len(nodes)-1]) {
@@ -443,6 +493,9 @@ func fixDefnArglist(defn parse.Node) {
 	if !goclj.Newline(nodes[2]) || goclj.Newline(nodes[4]) {
 		return
 	}
+	if endsWithComment(nodes[1]) {
+		return // the newline needs to stay there
+	}
 	if !goclj.Vector(nodes[3]) {
 		return
 	}
@@ -456,7 +509,7 @@ func fixDefmethodDispatchVal(defmethod parse.Node) {
 	if len(nodes) < 5 {
 		return
 	}
-	if !goclj.Newline(nodes[2]) {
+	if !goclj.Newline(nodes[2]) || endsWithComment(nodes[1]) {
 		return
 	}
 	if !goclj.Keyword(nodes[3]) {
-- 
2.43.0


From ff8ffe3a19edd49785ea4d92faa35624bb9332fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:16 +0000
Subject: [PATCH 07/45] fix: don't realign a string which is only followed by a
 comment

In (def s "a
  b" ; comment
) the string is the value, not a docstring, so changing its whitespace
changes the program.
---
 format/docstring.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/docstring.go b/format/docstring.go
index 4a0db83..d78e6b0 100644
--- a/format/docstring.go
+++ b/format/docstring.go
@@ -31,6 +31,10 @@ func (p *Printer) markDocstrings(n parse.Node) {
 		//   (def s "this is a docstring" "x")
 		//
 		if docstring != nil {
+			switch node.(type) {
+			case *parse.CommentNode, *parse.ReaderDiscardNode:
+				continue
+			}
 			p.docstrings[docstring] = struct{}{}
 			return
 		}
-- 
2.43.0


From 6b0637add012144919ebbd5df67e46592b30556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:17 +0000
Subject: [PATCH 08/45] fix: keep the order of requires in the rewriting
 transforms

With sort-import-require disabled, use-to-require and
remove-unused-requires wrote the requires in random map order.
---
 format/require.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/format/require.go b/format/require.go
index 9a58714..0b4ab3d 100644
--- a/format/require.go
+++ b/format/require.go
@@ -176,7 +176,8 @@ type nodeWithComments struct {
 }
 
 type requireList struct {
-	m map[string]*require
+	m     map[string]*require
+	names []string // the keys of m, in the order they were added
 	// macros is true if this represents a :require-macros list.
 	macros bool
 
@@ -195,6 +196,7 @@ func (rl *requireList) merge(r *require) *require {
 	r2, ok := rl.m[r.name]
 	if !ok {
 		rl.m[r.name] = r
+		rl.names = append(rl.names, r.name)
 		return r
 	}
 	if r.as != nil {
@@ -262,7 +264,11 @@ func (rl *requireList) render() []parse.Node {
 		nodes = append(nodes, &parse.KeywordNode{Val: ":require"})
 	}
 	nodes = append(nodes, newline)
-	for _, r := range rl.m {
+	for _, name := range rl.names {
+		r, ok := rl.m[name]
+		if !ok {
+			continue // removed
+		}
 		for _, c := range r.comments.commentsAbove {
 			nodes = append(nodes, c, newline)
 		}
-- 
2.43.0


From acba5b992bc838cca19afde483c6c2a87fc53ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 09/45] fix: don't share a newline node between trees

All the trees being printed had the same global NewlineNode, whose parent
was overwritten for each of them; this is a data race if separate Printers
are used concurrently.
---
 format/require.go   | 25 +++++++++++++------------
 format/transform.go | 10 +++++-----
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/format/require.go b/format/require.go
index 0b4ab3d..dffb108 100644
--- a/format/require.go
+++ b/format/require.go
@@ -150,7 +150,8 @@ type nodeComments struct {
 	commentsBesideMerged bool
 }
 
-var newline = &parse.NewlineNode{}
+// newline makes a new node. (Nodes can't be shared because they have a parent.)
+func newline() parse.Node { return &parse.NewlineNode{} }
 
 func (nc *nodeComments) attachCommentsAbove(cs []*parse.CommentNode) {
 	nc.commentsAbove = append(nc.commentsAbove, cs...)
@@ -263,14 +264,14 @@ func (rl *requireList) render() []parse.Node {
 	} else {
 		nodes = append(nodes, &parse.KeywordNode{Val: ":require"})
 	}
-	nodes = append(nodes, newline)
+	nodes = append(nodes, newline())
 	for _, name := range rl.names {
 		r, ok := rl.m[name]
 		if !ok {
 			continue // removed
 		}
 		for _, c := range r.comments.commentsAbove {
-			nodes = append(nodes, c, newline)
+			nodes = append(nodes, c, newline())
 		}
 		parts := []parse.Node{&parse.SymbolNode{Val: r.name}}
 		as := sortStringSet(r.as)
@@ -284,7 +285,7 @@ func (rl *requireList) render() []parse.Node {
 					&parse.SymbolNode{Val: as[0]},
 				},
 			}
-			nodes = append(nodes, n, newline)
+			nodes = append(nodes, n, newline())
 			as = as[1:]
 		}
 		if len(as) > 0 {
@@ -308,25 +309,25 @@ func (rl *requireList) render() []parse.Node {
 		if r.comments.commentBeside != nil {
 			nodes = append(nodes, r.comments.commentBeside)
 		}
-		nodes = append(nodes, newline)
+		nodes = append(nodes, newline())
 	}
 	for _, r := range rl.extraRequire {
 		for _, c := range r.comments.commentsAbove {
-			nodes = append(nodes, c, newline)
+			nodes = append(nodes, c, newline())
 		}
 		nodes = append(nodes, r.n)
 		if r.comments.commentBeside != nil {
 			nodes = append(nodes, r.comments.commentBeside)
 		}
-		nodes = append(nodes, newline)
+		nodes = append(nodes, newline())
 	}
 	for _, c := range rl.commentsBelow {
-		nodes = append(nodes, c, newline)
+		nodes = append(nodes, c, newline())
 	}
 
 	list := []parse.Node{
 		&parse.ListNode{Nodes: nodes},
-		newline,
+		newline(),
 	}
 	if len(rl.extraUse) > 0 {
 		extra := []parse.Node{
@@ -334,17 +335,17 @@ func (rl *requireList) render() []parse.Node {
 		}
 		for _, n := range rl.extraUse {
 			for _, c := range n.comments.commentsAbove {
-				extra = append(extra, c, newline)
+				extra = append(extra, c, newline())
 			}
 			extra = append(extra, n.n)
 			if n.comments.commentBeside != nil {
 				extra = append(extra, n.comments.commentBeside)
 			}
-			extra = append(extra, newline)
+			extra = append(extra, newline())
 		}
 		list = append(list,
 			&parse.ListNode{Nodes: extra},
-			newline,
+			newline(),
 		)
 	}
 	return list
diff --git a/format/transform.go b/format/transform.go
index 42bf83c..59d99ae 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -336,7 +336,7 @@ func enforceNSStyle(ns parse.Node) {
 		}
 		if multipleArgs && len(clauseChildren) >= 2 && goclj.Semantic(clauseChildren[1]) {
 			clauseChildren = append(
-				[]parse.Node{clauseChildren[0], newline},
+				[]parse.Node{clauseChildren[0], newline()},
 				clauseChildren[1:]...,
 			)
 		}
@@ -440,21 +440,21 @@ func sortImportRequire(n *parse.ListNode) {
 	sort.Stable(sorted)
 	newNodes := []parse.Node{nodes[0]}
 	if initialNewline {
-		newNodes = append(newNodes, newline)
+		newNodes = append(newNodes, newline())
 	}
 	for _, ir := range sorted {
 		for _, cn := range ir.commentsAbove {
-			newNodes = append(newNodes, cn, newline)
+			newNodes = append(newNodes, cn, newline())
 		}
 		newNodes = append(newNodes, ir.node)
 		if ir.commentBeside != nil {
 			newNodes = append(newNodes, ir.commentBeside)
 		}
-		newNodes = append(newNodes, newline)
+		newNodes = append(newNodes, newline())
 	}
 	// unattached comments at the bottom
 	for _, cn := range lineComments {
-		newNodes = append(newNodes, cn, newline)
+		newNodes = append(newNodes, cn, newline())
 	}
 	// drop trailing newline
 	if len(newNodes) >= 2 && !endsWithComment(newNodes[len(newNodes)-2]) {
-- 
2.43.0


From 51681830d75ba78e10da7fdc611dff9e3f6901fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:40 +0000
Subject: [PATCH 10/45] fix: don't modify the caller's Transforms map

PrintTree filled in the default transforms in the map given by the caller,
so that sharing it between Printers was a data race.
---
 format/format.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/format/format.go b/format/format.go
index d82fbd1..2dc1c19 100644
--- a/format/format.go
+++ b/format/format.go
@@ -71,14 +71,12 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 	for k, v := range p.ThreadFirstStyleOverrides {
 		p.threadFirstStyles[k] = v
 	}
-	if p.Transforms == nil {
-		p.Transforms = DefaultTransforms
-	} else {
-		for k, v := range DefaultTransforms {
-			if _, ok := p.Transforms[k]; !ok {
-				p.Transforms[k] = v
-			}
-		}
+	transforms := make(map[Transform]bool)
+	for k, v := range DefaultTransforms {
+		transforms[k] = v
+	}
+	for k, v := range p.Transforms {
+		transforms[k] = v
 	}
 	defer func() {
 		if e := recover(); e != nil {
@@ -92,7 +90,7 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 			}
 		}
 	}()
-	applyTransforms(t, p.Transforms)
+	applyTransforms(t, transforms)
 	for _, node := range t.Roots {
 		p.markDocstrings(node)
 		p.markThreadFirsts(node)
-- 
2.43.0


From 91aa533617887c46bfad598e134b979c0e85948b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:41 +0000
Subject: [PATCH 11/45] fix: forget the requires of the previous tree in
 PrintTree

If a Printer was used for several trees, the aliases and referred names of
one tree selected the indentation of names in the following ones.
---
 format/format.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/format/format.go b/format/format.go
index 2dc1c19..d30a81b 100644
--- a/format/format.go
+++ b/format/format.go
@@ -45,18 +45,18 @@ type Printer struct {
 // NewPrinter creates a printer to the given writer.
 func NewPrinter(w io.Writer) *Printer {
 	return &Printer{
-		bufWriter:     &bufWriter{bufio.NewWriter(w)},
-		IndentChar:    ' ',
-		specialIndent: make(map[parse.Node]IndentStyle),
-		threadFirst:   make(map[parse.Node]struct{}),
-		docstrings:    make(map[*parse.StringNode]struct{}),
-		requires:      make(map[string]string),
-		refers:        make(map[string]string),
+		bufWriter:  &bufWriter{bufio.NewWriter(w)},
+		IndentChar: ' ',
 	}
 }
 
 // PrintTree writes t to p's writer.
 func (p *Printer) PrintTree(t *parse.Tree) (err error) {
+	p.specialIndent = make(map[parse.Node]IndentStyle)
+	p.threadFirst = make(map[parse.Node]struct{})
+	p.docstrings = make(map[*parse.StringNode]struct{})
+	p.requires = make(map[string]string)
+	p.refers = make(map[string]string)
 	p.indentStyles = make(map[string]IndentStyle)
 	for k, v := range defaultIndents {
 		p.indentStyles[k] = v
-- 
2.43.0


From 8637d97712cec00f3873c934709c9453b5779233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:00 +0000
Subject: [PATCH 12/45] fix: report errors writing to standard output

cljfmt exited successfully even if the output was cut short.
---
 cljfmt/cljfmt.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index 5035238..b263456 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -215,7 +215,9 @@ func (c *config) processFile(filename string, in io.Reader) error {
 	}
 	if !bytes.Equal(buf1.Bytes(), buf2.Bytes()) {
 		if c.list {
-			fmt.Println(filename)
+			if _, err := fmt.Println(filename); err != nil {
+				return err
+			}
 		}
 		if c.write {
 			if err := ioutil.WriteFile(filename, buf2.Bytes(), perm); err != nil {
@@ -224,7 +226,9 @@ func (c *config) processFile(filename string, in io.Reader) error {
 		}
 	}
 	if !c.list && !c.write {
-		io.Copy(os.Stdout, &buf2)
+		if _, err := io.Copy(os.Stdout, &buf2); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From ca0ee5b97755771b606817c5882e0df891fe6af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:00 +0000
Subject: [PATCH 13/45] fix: don't drift to the right after a blank line inside
 a pair

Every newline between a key and its value added two columns of extra
indentation, but only two of them were taken away after the value.
---
 format/format.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/format/format.go b/format/format.go
index d30a81b..7cf43dd 100644
--- a/format/format.go
+++ b/format/format.go
@@ -653,8 +653,10 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 				IndentCond2,
 				IndentCond4:
 				if pairIdx > 0 {
-					w += 2
-					extraIndent = true
+					if !extraIndent {
+						w += 2
+						extraIndent = true
+					}
 				} else if i == 1 && semanticIdx == 1 {
 					w++
 				}
-- 
2.43.0


From 3659c98fafe6ea075661c14e6a03a277cd04ed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 14/45] fix: compute columns properly after non-ASCII and
 multi-line literals

The column used for aligning the following lines counted bytes rather than
characters, and it was off after a string or regex containing a newline.
---
 format/format.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/format/format.go b/format/format.go
index 7cf43dd..cfa75ce 100644
--- a/format/format.go
+++ b/format/format.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/cespare/goclj"
 	"github.com/cespare/goclj/parse"
@@ -173,7 +174,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		w += p.writeByte('\'')
 		return p.printNode(node.Node, w)
 	case *parse.RegexNode:
-		return w + p.writeString(`#"`+node.Val+`"`)
+		return p.writeMultiline(`#"`+node.Val+`"`, w)
 	case *parse.SetNode:
 		w += p.writeString("#{")
 		w = p.printSequence(node.Nodes, w, IndentNormal)
@@ -184,7 +185,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 			val = p.alignDocstring(val, w)
 			delete(p.docstrings, node)
 		}
-		return w + p.writeString(`"`+val+`"`)
+		return p.writeMultiline(`"`+val+`"`, w)
 	case *parse.SymbolNode:
 		return w + p.writeString(node.Val)
 	case *parse.SyntaxQuoteNode:
@@ -738,13 +739,24 @@ type bufWriter struct {
 
 type bufErr struct{ error }
 
+// writeString returns the width of s, in characters.
 func (bw *bufWriter) writeString(s string) int {
-	n, err := bw.bw.WriteString(s)
-	if err != nil {
+	if _, err := bw.bw.WriteString(s); err != nil {
 		panic(bufErr{err})
 	}
-	return n
+	return utf8.RuneCountInString(s)
 }
+
+// writeMultiline writes s, which may contain newlines, at column w. It returns
+// the column after s.
+func (bw *bufWriter) writeMultiline(s string, w int) int {
+	n := bw.writeString(s)
+	if i := strings.LastIndexByte(s, '\n'); i >= 0 {
+		return utf8.RuneCountInString(s[i+1:])
+	}
+	return w + n
+}
+
 func (bw *bufWriter) writeByte(b byte) int {
 	if err := bw.bw.WriteByte(b); err != nil {
 		panic(bufErr{err})
-- 
2.43.0


From 4f799cf3baba22255523860dbf4b723034600b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:02 +0000
Subject: [PATCH 15/45] fix: decode \backspace as U+0008

It was decoded as U+007F (delete).
---
 parse/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/parse.go b/parse/parse.go
index ceb3922..331f1ff 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -267,7 +267,7 @@ func (t *Tree) parseCharLiteral(tok token) *CharacterNode {
 		case "formfeed":
 			r = '\f'
 		case "backspace":
-			r = 0x7f
+			r = '\b'
 		case "return":
 			r = '\r'
 		default:
-- 
2.43.0


From 377c5700edceef297a6de66fee63406ddd7d99f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:19 +0000
Subject: [PATCH 16/45] fix: keep a comment beside :require or :import in its
 place

Sorting moved it above the first item, and formatting the result again
inserted another newline after the :require.
---
 format/transform.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/format/transform.go b/format/transform.go
index 59d99ae..925edf0 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -409,11 +409,16 @@ func sortNS(ns parse.Node) {
 func sortImportRequire(n *parse.ListNode) {
 	var (
 		nodes             = n.Children()
+		head              = nodes[:1]
 		sorted            = make(importRequireList, 0, len(nodes)/2)
 		lineComments      []*parse.CommentNode
 		initialNewline    = false
 		afterSemanticNode = false
 	)
+	if len(nodes) >= 2 && goclj.Comment(nodes[1]) {
+		// This comment belongs to the :import or :require itself.
+		head, nodes = nodes[:2], nodes[1:]
+	}
 	for i, node := range nodes[1:] {
 		switch node := node.(type) {
 		case *parse.CommentNode:
@@ -438,7 +443,7 @@ func sortImportRequire(n *parse.ListNode) {
 		}
 	}
 	sort.Stable(sorted)
-	newNodes := []parse.Node{nodes[0]}
+	newNodes := append([]parse.Node(nil), head...)
 	if initialNewline {
 		newNodes = append(newNodes, newline())
 	}
-- 
2.43.0


From 6043299f4444545813793a2df22afcab5b197172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:20 +0000
Subject: [PATCH 17/45] fix: don't separate ns clause items from their prefixes
 when sorting

Metadata, tags and stacked #_ forms are siblings of the form which they
apply to, so sorting could attach them to something else. Leave the clauses
which contain them alone.
---
 format/transform.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/format/transform.go b/format/transform.go
index 925edf0..8552f5e 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -406,7 +406,28 @@ func sortNS(ns parse.Node) {
 	}
 }
 
+// modifiesNext reports whether n (metadata, a tag, or one of several stacked #_)
+// is a prefix of the node after it, so that the two must not be separated.
+func modifiesNext(n parse.Node) bool {
+	switch n := n.(type) {
+	case *parse.MetadataNode, *parse.TagNode:
+		return true
+	case *parse.ReaderDiscardNode:
+		switch n.Node.(type) {
+		case *parse.ReaderDiscardNode, *parse.CommentNode:
+			return true
+		}
+		return modifiesNext(n.Node)
+	}
+	return false
+}
+
 func sortImportRequire(n *parse.ListNode) {
+	for _, node := range n.Children() {
+		if modifiesNext(node) {
+			return
+		}
+	}
 	var (
 		nodes             = n.Children()
 		head              = nodes[:1]
-- 
2.43.0


From 57fd5f066c5849093ec41e5e9052b772acdd0789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:08 +0000
Subject: [PATCH 18/45] fix: don't lose comments and metadata when rewriting
 requires

use-to-require and remove-unused-requires dropped the comments, metadata
and tags inside the items they rewrote, and separated metadata and tags
in front of an item from it. Leave such items (or clauses) as they are.
---
 format/require.go   | 13 ++++++++++++-
 format/transform.go | 19 +++++++++++++------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/format/require.go b/format/require.go
index dffb108..a464b95 100644
--- a/format/require.go
+++ b/format/require.go
@@ -241,7 +241,7 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 		case *parse.NewlineNode:
 			afterSemanticNode = false
 		default:
-			if r := parseFn(node); r != nil {
+			if r := parseFn(node); r != nil && !hasAnnotations(node) {
 				r2 := rl.merge(r)
 				prevComments = &r2.comments
 			} else {
@@ -257,6 +257,17 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 	rl.commentsBelow = append(rl.commentsBelow, lineComments...)
 }
 
+// hasAnnotations reports whether there are comments, metadata, or tags inside n.
+// They would get lost if it were rewritten.
+func hasAnnotations(n parse.Node) bool {
+	for _, child := range n.Children() {
+		if !goclj.Newline(child) && !goclj.Semantic(child) || hasAnnotations(child) {
+			return true
+		}
+	}
+	return false
+}
+
 func (rl *requireList) render() []parse.Node {
 	var nodes []parse.Node
 	if rl.macros {
diff --git a/format/transform.go b/format/transform.go
index 8552f5e..c26d502 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -229,7 +229,7 @@ func useToRequire(ns parse.Node) {
 			continue
 		}
 		prevSkipped = false
-		if goclj.FnFormKeyword(n, ":require", ":use") {
+		if goclj.FnFormKeyword(n, ":require", ":use") && !hasModifier(n.Children()) {
 			children := n.Children()
 			name := children[0].(*parse.KeywordNode).Val
 			rl.parseRequireUse(children, name == ":use")
@@ -254,7 +254,7 @@ func removeUnusedRequires(ns parse.Node, syms *symbolCache) {
 	nodes := children[:0]
 	for i := 0; i < len(children); i++ {
 		n := children[i]
-		if !goclj.FnFormKeyword(n, ":require", ":require-macros") {
+		if !goclj.FnFormKeyword(n, ":require", ":require-macros") || hasModifier(n.Children()) {
 			nodes = append(nodes, n)
 			continue
 		}
@@ -422,12 +422,19 @@ func modifiesNext(n parse.Node) bool {
 	return false
 }
 
-func sortImportRequire(n *parse.ListNode) {
-	for _, node := range n.Children() {
-		if modifiesNext(node) {
-			return
+func hasModifier(nodes []parse.Node) bool {
+	for _, n := range nodes {
+		if modifiesNext(n) {
+			return true
 		}
 	}
+	return false
+}
+
+func sortImportRequire(n *parse.ListNode) {
+	if hasModifier(n.Children()) {
+		return
+	}
 	var (
 		nodes             = n.Children()
 		head              = nodes[:1]
-- 
2.43.0


From 964a386c292e0e7af83b5537e61e76f2408f2f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:09 +0000
Subject: [PATCH 19/45] fix: keep :refer-macros when merging it with a plain
 :use

The merged require only had :refer :all.
---
 format/require.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/require.go b/format/require.go
index a464b95..0d63c3b 100644
--- a/format/require.go
+++ b/format/require.go
@@ -312,9 +312,9 @@ func (rl *requireList) render() []parse.Node {
 			if n := r.refer.render(); n != nil {
 				parts = append(parts, &parse.KeywordNode{Val: ":refer"}, n)
 			}
-			if n := r.referMacros.render(); n != nil {
-				parts = append(parts, &parse.KeywordNode{Val: ":refer-macros"}, n)
-			}
+		}
+		if n := r.referMacros.render(); n != nil {
+			parts = append(parts, &parse.KeywordNode{Val: ":refer-macros"}, n)
 		}
 		nodes = append(nodes, &parse.VectorNode{Nodes: parts})
 		if r.comments.commentBeside != nil {
-- 
2.43.0


From 9c2cd8cd92532ed281ed21f5e0cd5098666eba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:10 +0000
Subject: [PATCH 20/45] fix: recognize uses of the symbol / in
 remove-unused-requires

[foo :refer [/]] was always removed.
---
 format/unused.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/unused.go b/format/unused.go
index 7e0512d..6661908 100644
--- a/format/unused.go
+++ b/format/unused.go
@@ -44,7 +44,7 @@ func findSymbols(roots []parse.Node) *symbolCache {
 			}
 		}
 		if name != "" {
-			if i := strings.IndexRune(name, '/'); i < 0 {
+			if i := strings.IndexRune(name, '/'); i <= 0 { // the symbol / has no namespace
 				syms.symbols[name] = struct{}{}
 			} else {
 				syms.namespaces[name[:i]] = struct{}{}
-- 
2.43.0


From d5332c660a3a6fc6fc936d07f172cf7dd1c575db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:11 +0000
Subject: [PATCH 21/45] fix: recognize comment forms which begin with a newline

With IncludeNonSemantic, IgnoreCommentForm didn't work for them.
---
 parse/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/parse.go b/parse/parse.go
index 331f1ff..aea7c01 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -508,6 +508,9 @@ func (t *Tree) parseVarQuote(start token) *VarQuoteNode {
 func (t *Tree) includeNode(node Node) bool {
 	if list, ok := node.(*ListNode); ok {
 		children := list.Children()
+		for len(children) > 0 && !isSemantic(children[0]) {
+			children = children[1:]
+		}
 		if len(children) > 0 {
 			if sym, ok := children[0].(*SymbolNode); ok {
 				if sym.Val == "comment" && t.ignoreCommentForm {
-- 
2.43.0


From a693dffb10fb60811ed566f1da5492a462006f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:43 +0000
Subject: [PATCH 22/45] fix: ignore the right forms with IgnoreReaderDiscard

In #_ #_ a b only a was ignored, #_ ^:m a and #_ #tag a left a in place,
and in '#_ a b the discarded form was kept.
---
 parse/parse.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/parse/parse.go b/parse/parse.go
index aea7c01..f3da96b 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -220,12 +220,37 @@ func (t *Tree) parseNextSemantic() Node {
 		}
 		t.backup()
 		n := t.parseNext()
+		if _, ok := n.(*ReaderDiscardNode); ok && t.ignoreReaderDiscard {
+			continue
+		}
 		if isSemantic(n) {
 			return n
 		}
 	}
 }
 
+// parseDiscarded parses what a #_ applies to, including any metadata or tags in
+// front of the item; other discarded items before it don't count.
+func (t *Tree) parseDiscarded() Node {
+	for {
+		n := t.parseNextSemantic()
+		last := n
+		for {
+			switch p := last.(type) {
+			case *QuoteNode, *SyntaxQuoteNode, *DerefNode, *UnquoteNode, *UnquoteSpliceNode, *ReaderEvalNode:
+				last = p.Children()[0]
+				continue
+			}
+			break
+		}
+		switch last.(type) {
+		case *MetadataNode, *TagNode:
+			continue
+		}
+		return n
+	}
+}
+
 // parsePrefixed parses the item following one of the prefixes ^, #_, and #=.
 // It is like parseNextSemantic except that a comment in between is kept (as the
 // prefixed item) if the tree includes non-semantic nodes.
@@ -243,7 +268,11 @@ func (t *Tree) parsePrefixed() Node {
 			}
 		}
 		t.backup()
-		return t.parseNext()
+		n := t.parseNext()
+		if _, ok := n.(*ReaderDiscardNode); ok && t.ignoreReaderDiscard {
+			continue
+		}
+		return n
 	}
 }
 
@@ -457,6 +486,9 @@ func (t *Tree) parseMetadata(start token) *MetadataNode {
 }
 
 func (t *Tree) parseReaderDiscard(start token) *ReaderDiscardNode {
+	if t.ignoreReaderDiscard {
+		return &ReaderDiscardNode{Pos: start.pos, Node: t.parseDiscarded()}
+	}
 	return &ReaderDiscardNode{Pos: start.pos, Node: t.parsePrefixed()}
 }
 
-- 
2.43.0


From 335133549cccd4924d7882fbe95f3ab870aedc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:43 +0000
Subject: [PATCH 23/45] fix: ignore discarded forms in the config file

Commenting out an option with #_ was reported as an error.
---
 cljfmt/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cljfmt/config.go b/cljfmt/config.go
index e06298a..cbe7bb5 100644
--- a/cljfmt/config.go
+++ b/cljfmt/config.go
@@ -20,7 +20,7 @@ func (e unexpectedNodeError) Error() string {
 func (c *config) parseDotConfig(r io.Reader, name string) error {
 	// We don't ask the parser for non-semantic nodes, so we don't need to
 	// prune out comments.
-	tree, err := parse.Reader(r, name, 0)
+	tree, err := parse.Reader(r, name, parse.IgnoreReaderDiscard)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 74f9ead659e605f822d49960c071cd6451d3e392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 24/45] fix: keep bytes which aren't valid UTF-8

They were replaced by U+FFFD, so formatting a file in another encoding
irrecoverably changed its strings and comments.
---
 parse/lex.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/parse/lex.go b/parse/lex.go
index 12eb38f..c9867df 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"unicode"
+	"unicode/utf8"
 )
 
 // Pos is a position in source text.
@@ -128,7 +129,8 @@ type lexer struct {
 	lastPos *Pos    // the position before the most recent next() call
 	tokens  []token // scanned tokens which haven't been consumed yet
 	state   stateFn // the next state; nil once scanning has stopped
-	val     []rune  // the literal contents of the token
+	width   int     // how many bytes the most recent next() call consumed
+	val     []byte  // the literal contents of the token
 }
 
 func lex(name string, input *bufio.Reader) *lexer {
@@ -160,7 +162,20 @@ func (l *lexer) next() (r rune, eof bool) {
 		l.pos.Line++
 		l.pos.Col = 1
 	}
-	l.val = append(l.val, r)
+	l.width = w
+	if r == utf8.RuneError && w == 1 {
+		// This isn't valid UTF-8; keep the byte as it is.
+		if err := l.input.UnreadRune(); err != nil {
+			panic("should not happen")
+		}
+		b, err := l.input.ReadByte()
+		if err != nil {
+			panic("should not happen")
+		}
+		l.val = append(l.val, b)
+	} else {
+		l.val = append(l.val, string(r)...)
+	}
 	return r, false
 }
 
@@ -168,11 +183,15 @@ func (l *lexer) back() {
 	if l.lastPos == nil {
 		panic("back() call not preceded by a next()")
 	}
-	if err := l.input.UnreadRune(); err != nil {
+	unread := l.input.UnreadRune
+	if l.width == 1 {
+		unread = l.input.UnreadByte
+	}
+	if err := unread(); err != nil {
 		panic("should not happen")
 	}
 	l.pos = l.lastPos
-	l.val = l.val[:len(l.val)-1]
+	l.val = l.val[:len(l.val)-l.width]
 	l.lastPos = nil
 }
 
-- 
2.43.0


From 0d5bd8607ab3d4d104688042f04a21833dd683ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:49 +0000
Subject: [PATCH 25/45] fix: don't count metadata as an argument of
 thread-first macros

In (cond-> ^T x a (case ...) ...) the wrong clauses got the indentation of
a threaded form.
---
 format/threadfirst.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/format/threadfirst.go b/format/threadfirst.go
index 88b1884..718503c 100644
--- a/format/threadfirst.go
+++ b/format/threadfirst.go
@@ -1,6 +1,9 @@
 package format
 
-import "github.com/cespare/goclj/parse"
+import (
+	"github.com/cespare/goclj"
+	"github.com/cespare/goclj/parse"
+)
 
 func (p *Printer) markThreadFirsts(n parse.Node) {
 	var nodes []parse.Node
@@ -29,9 +32,10 @@ func (p *Printer) markThreadFirstStyle(form parse.Node, style ThreadFirstStyle)
 	}
 	idxSemantic := 0
 	for _, node := range form.Children() {
-		switch n := node.(type) {
-		case *parse.CommentNode, *parse.NewlineNode:
+		if !goclj.Semantic(node) {
 			continue
+		}
+		switch n := node.(type) {
 		case *parse.ListNode:
 			if idxSemantic >= begin {
 				switch style {
-- 
2.43.0


From 2beda1888fb5058c5c93c536e4f13198f1463b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 26/45] fix: compute columns properly after a leading newline

When a method's list begins with a newline, its indentation is changed
after the newline, but the column of what follows wasn't.
---
 format/format.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/format.go b/format/format.go
index cfa75ce..7be791b 100644
--- a/format/format.go
+++ b/format/format.go
@@ -688,6 +688,7 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 		}
 		if needIndent {
 			p.writeString(strings.Repeat(string(p.IndentChar), w))
+			w2 = w
 		}
 		if needSpace {
 			w2 += p.writeByte(' ')
-- 
2.43.0


From 26429dd260a66ec5957011546108b6d530875a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:49 +0000
Subject: [PATCH 27/45] fix: apply the letfn rule to the binding vector only

Vectors in the body of a letfn got the indentation of its function
bindings too.
---
 format/format.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/format.go b/format/format.go
index 7be791b..06ade71 100644
--- a/format/format.go
+++ b/format/format.go
@@ -311,6 +311,7 @@ func (p *Printer) applySpecialLetfn(nodes []parse.Node) {
 				p.specialIndent[fn] = IndentListBody
 			}
 		}
+		return
 	}
 }
 
-- 
2.43.0


From 0070db5b4b5f9f914f09bd0e1e2cc7ce57aafff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 28/45] fix: compute columns properly after a newline character
 literal

The literal may be written as a backslash and a line break.
---
 format/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index 06ade71..02324bc 100644
--- a/format/format.go
+++ b/format/format.go
@@ -112,7 +112,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 			return w + p.writeString("false")
 		}
 	case *parse.CharacterNode:
-		return w + p.writeString(node.Text)
+		return p.writeMultiline(node.Text, w)
 	case *parse.CommentNode:
 		return w + p.writeString(node.Text)
 	case *parse.DerefNode:
-- 
2.43.0


From 0674defd455e562ce3113a792ee1c7bc0824a44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 29/45] fix: keep a sorted require's comment above it

If the require became the first one and the clause didn't start with a
newline, the comment moved next to the :require.
---
 format/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/transform.go b/format/transform.go
index c26d502..aa10d90 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -472,7 +472,7 @@ func sortImportRequire(n *parse.ListNode) {
 	}
 	sort.Stable(sorted)
 	newNodes := append([]parse.Node(nil), head...)
-	if initialNewline {
+	if initialNewline || (len(sorted) > 0 && len(sorted[0].commentsAbove) > 0) {
 		newNodes = append(newNodes, newline())
 	}
 	for _, ir := range sorted {
-- 
2.43.0


From a734d739da9f1745e2848557afc1641bc22eb6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 30/45] fix: rewrite (use x) and [:use x] clauses in one pass

With enforce-ns-style, such a clause becomes (:use x), but only after
use-to-require and remove-unused-requires have run, so that formatting
the result again changed it again.
---
 format/transform.go | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/format/transform.go b/format/transform.go
index aa10d90..2be19aa 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -133,6 +133,10 @@ func applyTransforms(t *parse.Tree, transforms map[Transform]bool) {
 	for _, root := range t.Roots {
 		terminateCommentsRec(root)
 		if goclj.FnFormSymbol(root, "ns") {
+			if transforms[TransformEnforceNSStyle] {
+				// The other transforms only recognize (:clause ...).
+				normalizeNSClauses(root)
+			}
 			if transforms[TransformUseToRequire] {
 				useToRequire(root)
 			}
@@ -323,36 +327,44 @@ func enforceNSStyle(ns parse.Node) {
 		default:
 			continue
 		}
-		multipleArgs := false
 		switch clause {
-		case "refer-clojure":
-		case "require", "require-macros", "use", "import", "load", "gen-class":
-			multipleArgs = true
+		case "refer-clojure", "require", "require-macros", "use", "import", "load", "gen-class":
 		default:
 			continue
 		}
 		if isSym {
 			clauseChildren[0] = &parse.KeywordNode{Val: ":" + clause}
+			n.SetChildren(clauseChildren)
+		}
+		if isVec {
+			n = &parse.ListNode{Nodes: n.Children()}
 		}
-		if multipleArgs && len(clauseChildren) >= 2 && goclj.Semantic(clauseChildren[1]) {
+		children[i] = n
+	}
+	ns.SetChildren(children)
+}
+
+// enforceNSStyle must be called after normalizeNSClauses.
+func enforceNSStyle(ns parse.Node) {
+	for _, n := range ns.Children()[1:] {
+		if !goclj.FnFormKeyword(n, ":require", ":require-macros", ":use", ":import", ":load", ":gen-class") {
+			continue
+		}
+		clauseChildren := n.Children()
+		if len(clauseChildren) >= 2 && goclj.Semantic(clauseChildren[1]) {
 			clauseChildren = append(
 				[]parse.Node{clauseChildren[0], newline()},
 				clauseChildren[1:]...,
 			)
 		}
-		switch clause {
-		case "require", "require-macros":
+		switch clauseChildren[0].(*parse.KeywordNode).Val {
+		case ":require", ":require-macros":
 			enforceRequireStyle(clauseChildren)
-		case "import":
+		case ":import":
 			enforceImportStyle(clauseChildren)
 		}
 		n.SetChildren(clauseChildren)
-		if isVec {
-			n = &parse.ListNode{Nodes: n.Children()}
-		}
-		children[i] = n
 	}
-	ns.SetChildren(children)
 }
 
 func enforceRequireStyle(nodes []parse.Node) {
-- 
2.43.0


From 65f30e000bb5568db48f8b2e6527690538795a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 31/45] fix: keep the order of requires and their comments

Requires which aren't recognized, or which are kept by
remove-unused-requires, moved to the end of the clause and (in the
latter case) left their comments behind. Without sort-import-require,
formatting the result again changed it again. Newlines inside of a :use
or an empty :refer made a difference, too.
---
 format/require.go   | 95 +++++++++++++++++++++++++++++----------------
 format/transform.go | 23 +++--------
 2 files changed, 67 insertions(+), 51 deletions(-)

diff --git a/format/require.go b/format/require.go
index 0d63c3b..70dcfe3 100644
--- a/format/require.go
+++ b/format/require.go
@@ -176,19 +176,40 @@ type nodeWithComments struct {
 	comments nodeComments
 }
 
+// render appends nc to nodes.
+func (nc *nodeWithComments) render(nodes []parse.Node) []parse.Node {
+	for _, c := range nc.comments.commentsAbove {
+		nodes = append(nodes, c, newline())
+	}
+	nodes = append(nodes, nc.n)
+	if nc.comments.commentBeside != nil {
+		nodes = append(nodes, nc.comments.commentBeside)
+	}
+	return append(nodes, newline())
+}
+
 type requireList struct {
 	m     map[string]*require
-	names []string // the keys of m, in the order they were added
+	items []requireItem // in the order they were added
 	// macros is true if this represents a :require-macros list.
 	macros bool
+	// keepBare means that requires of the form [foo] aren't recognized, so
+	// that they stay as they are.
+	keepBare bool
 
 	// unrecognized semantic nodes
-	extraRequire []*nodeWithComments
-	extraUse     []*nodeWithComments
+	extraUse []*nodeWithComments
 
 	commentsBelow []*parse.CommentNode
 }
 
+// A requireItem is the key of a require in the map or else an unrecognized
+// semantic node.
+type requireItem struct {
+	name  string
+	extra *nodeWithComments
+}
+
 func newRequireList() *requireList {
 	return &requireList{m: make(map[string]*require)}
 }
@@ -197,7 +218,7 @@ func (rl *requireList) merge(r *require) *require {
 	r2, ok := rl.m[r.name]
 	if !ok {
 		rl.m[r.name] = r
-		rl.names = append(rl.names, r.name)
+		rl.items = append(rl.items, requireItem{name: r.name})
 		return r
 	}
 	if r.as != nil {
@@ -217,14 +238,12 @@ func (rl *requireList) merge(r *require) *require {
 func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 	var (
 		parseFn           = parseRequire
-		extra             = &rl.extraRequire
 		prevComments      *nodeComments
 		lineComments      []*parse.CommentNode
 		afterSemanticNode = false
 	)
 	if use {
 		parseFn = parseUse
-		extra = &rl.extraUse
 	}
 	switch nodes[0].(*parse.KeywordNode).Val {
 	case ":require-macros", ":use-macros":
@@ -241,12 +260,16 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 		case *parse.NewlineNode:
 			afterSemanticNode = false
 		default:
-			if r := parseFn(node); r != nil && !hasAnnotations(node) {
+			if r := parseFn(node); r != nil && !hasAnnotations(node) && !(rl.keepBare && bareRequire(node)) {
 				r2 := rl.merge(r)
 				prevComments = &r2.comments
 			} else {
 				nc := &nodeWithComments{n: node}
-				*extra = append(*extra, nc)
+				if use {
+					rl.extraUse = append(rl.extraUse, nc)
+				} else {
+					rl.items = append(rl.items, requireItem{extra: nc})
+				}
 				prevComments = &nc.comments
 			}
 			prevComments.attachCommentsAbove(lineComments)
@@ -257,6 +280,12 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 	rl.commentsBelow = append(rl.commentsBelow, lineComments...)
 }
 
+// bareRequire reports whether n is of the form [foo].
+func bareRequire(n parse.Node) bool {
+	v, ok := n.(*parse.VectorNode)
+	return ok && len(v.Nodes) == 1
+}
+
 // hasAnnotations reports whether there are comments, metadata, or tags inside n.
 // They would get lost if it were rewritten.
 func hasAnnotations(n parse.Node) bool {
@@ -276,8 +305,12 @@ func (rl *requireList) render() []parse.Node {
 		nodes = append(nodes, &parse.KeywordNode{Val: ":require"})
 	}
 	nodes = append(nodes, newline())
-	for _, name := range rl.names {
-		r, ok := rl.m[name]
+	for _, item := range rl.items {
+		if item.extra != nil {
+			nodes = item.extra.render(nodes)
+			continue
+		}
+		r, ok := rl.m[item.name]
 		if !ok {
 			continue // removed
 		}
@@ -322,16 +355,6 @@ func (rl *requireList) render() []parse.Node {
 		}
 		nodes = append(nodes, newline())
 	}
-	for _, r := range rl.extraRequire {
-		for _, c := range r.comments.commentsAbove {
-			nodes = append(nodes, c, newline())
-		}
-		nodes = append(nodes, r.n)
-		if r.comments.commentBeside != nil {
-			nodes = append(nodes, r.comments.commentBeside)
-		}
-		nodes = append(nodes, newline())
-	}
 	for _, c := range rl.commentsBelow {
 		nodes = append(nodes, c, newline())
 	}
@@ -345,14 +368,7 @@ func (rl *requireList) render() []parse.Node {
 			&parse.KeywordNode{Val: ":use"},
 		}
 		for _, n := range rl.extraUse {
-			for _, c := range n.comments.commentsAbove {
-				extra = append(extra, c, newline())
-			}
-			extra = append(extra, n.n)
-			if n.comments.commentBeside != nil {
-				extra = append(extra, n.comments.commentBeside)
-			}
-			extra = append(extra, newline())
+			extra = n.render(extra)
 		}
 		list = append(list,
 			&parse.ListNode{Nodes: extra},
@@ -382,13 +398,18 @@ func parseRequire(n parse.Node) *require {
 	}
 }
 
-func parseRequireSeq(nodes []parse.Node) *require {
+func semanticNodes(nodes []parse.Node) []parse.Node {
 	semNodes := make([]parse.Node, 0, len(nodes))
 	for _, n := range nodes {
 		if goclj.Semantic(n) {
 			semNodes = append(semNodes, n)
 		}
 	}
+	return semNodes
+}
+
+func parseRequireSeq(nodes []parse.Node) *require {
+	semNodes := semanticNodes(nodes)
 	if len(semNodes) == 0 || !goclj.Symbol(semNodes[0]) {
 		return nil
 	}
@@ -442,8 +463,13 @@ func parseRequireSeq(nodes []parse.Node) *require {
 	if as != "" {
 		r.as = map[string]struct{}{as: {}}
 	}
-	r.refer.origRefer = refer
-	r.referMacros.origRefer = referMacros
+	// As with [], there's nothing to refer to in a list of newlines.
+	if len(semanticNodes(refer)) > 0 {
+		r.refer.origRefer = refer
+	}
+	if len(semanticNodes(referMacros)) > 0 {
+		r.referMacros.origRefer = referMacros
+	}
 	return r
 }
 
@@ -461,6 +487,7 @@ func parseUse(n parse.Node) *require {
 }
 
 func parseUseSeq(nodes []parse.Node) *require {
+	nodes = semanticNodes(nodes)
 	if len(nodes) == 0 || !goclj.Symbol(nodes[0]) {
 		return nil
 	}
@@ -486,8 +513,7 @@ func parseUseSeq(nodes []parse.Node) *require {
 			default:
 				return nil
 			}
-			r.refer.origRefer = nodes[2].Children()
-			for _, n := range r.refer.origRefer {
+			for _, n := range nodes[2].Children() {
 				switch n.(type) {
 				case *parse.SymbolNode,
 					*parse.CommentNode,
@@ -496,6 +522,9 @@ func parseUseSeq(nodes []parse.Node) *require {
 					return nil
 				}
 			}
+			if len(semanticNodes(nodes[2].Children())) > 0 {
+				r.refer.origRefer = nodes[2].Children()
+			}
 		default:
 			return nil
 		}
diff --git a/format/transform.go b/format/transform.go
index 2be19aa..83d4179 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -262,31 +262,17 @@ func removeUnusedRequires(ns parse.Node, syms *symbolCache) {
 			nodes = append(nodes, n)
 			continue
 		}
+		rl := newRequireList()
 		// As a special case, never remove requires of the form [foo]
 		// because they may be needed for their side-effects.
-		var keep []parse.Node
-		var requires []parse.Node
-		for i, child := range n.Children() {
-			if i == 0 {
-				requires = append(requires, child)
-				continue
-			}
-			if vec, ok := child.(*parse.VectorNode); ok && len(vec.Children()) == 1 {
-				keep = append(keep, child)
-			} else {
-				requires = append(requires, child)
-			}
-		}
-
-		rl := newRequireList()
-		rl.parseRequireUse(requires, false)
+		rl.keepBare = true
+		rl.parseRequireUse(n.Children(), false)
 		for name, r := range rl.m {
 			if syms.unused(r) {
 				delete(rl.m, name)
 			}
 		}
 		require := rl.render()[0].(*parse.ListNode)
-		require.Nodes = append(require.Nodes, keep...)
 		if len(require.Nodes) <= 2 {
 			// If all that's left is (:require), drop it.
 			// If there's a newline afterwards, drop that too.
@@ -300,7 +286,8 @@ func removeUnusedRequires(ns parse.Node, syms *symbolCache) {
 	ns.SetChildren(nodes)
 }
 
-func enforceNSStyle(ns parse.Node) {
+// normalizeNSClauses makes each clause of ns a list beginning with a keyword.
+func normalizeNSClauses(ns parse.Node) {
 	children := ns.Children()
 	for i := 1; i < len(children); i++ {
 		n := children[i]
-- 
2.43.0


From 670f52864fb844c2696ade0b3c48752dc81754db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 32/45] fix: see the classes in (import ...) clauses

remove-unused-requires removed namespaces whose types were imported by
such a clause.
---
 format/transform.go | 12 ++++++++----
 format/unused.go    |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/format/transform.go b/format/transform.go
index 83d4179..00c4c5f 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -125,6 +125,14 @@ var DefaultTransforms = map[Transform]bool{
 }
 
 func applyTransforms(t *parse.Tree, transforms map[Transform]bool) {
+	if transforms[TransformEnforceNSStyle] {
+		// The other transforms only recognize (:clause ...).
+		for _, root := range t.Roots {
+			if goclj.FnFormSymbol(root, "ns") {
+				normalizeNSClauses(root)
+			}
+		}
+	}
 	var syms *symbolCache
 	if transforms[TransformRemoveUnusedRequires] {
 		syms = findSymbols(t.Roots)
@@ -133,10 +141,6 @@ func applyTransforms(t *parse.Tree, transforms map[Transform]bool) {
 	for _, root := range t.Roots {
 		terminateCommentsRec(root)
 		if goclj.FnFormSymbol(root, "ns") {
-			if transforms[TransformEnforceNSStyle] {
-				// The other transforms only recognize (:clause ...).
-				normalizeNSClauses(root)
-			}
 			if transforms[TransformUseToRequire] {
 				useToRequire(root)
 			}
diff --git a/format/unused.go b/format/unused.go
index 6661908..55a33e9 100644
--- a/format/unused.go
+++ b/format/unused.go
@@ -57,7 +57,7 @@ func findSymbols(roots []parse.Node) *symbolCache {
 	for _, root := range roots {
 		if goclj.FnFormSymbol(root, "ns") {
 			for _, n := range root.Children()[1:] {
-				if goclj.FnFormKeyword(n, ":import") {
+				if goclj.FnFormKeyword(n, ":import") || goclj.FnFormSymbol(n, "import") {
 					for _, n1 := range n.Children()[1:] {
 						syms.findImports(n1)
 					}
-- 
2.43.0


From d062ac4cd0c5cfb38d0b063875a0116ebd976220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 33/45] fix: apply overrides through requires with other
 options

Qualified overrides weren't applied to names which come from a require
that has an option besides :as and :refer, or :refer :all, for instance
[my.ns :as a :include-macros true].
---
 format/require.go | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/format/require.go b/format/require.go
index 70dcfe3..f022193 100644
--- a/format/require.go
+++ b/format/require.go
@@ -16,22 +16,37 @@ func (p *Printer) markRequires(n parse.Node) {
 			continue
 		}
 		for _, n := range n.Children()[1:] {
-			r := parseRequire(n)
-			if r == nil {
-				continue
-			}
-			for as := range r.as {
-				p.requires[as] = r.name
+			p.markRequire(n)
+		}
+	}
+}
+
+// markRequire handles a single require. Unlike parseRequire, it doesn't mind
+// other options such as :include-macros or :refer :all.
+func (p *Printer) markRequire(n parse.Node) {
+	switch n.(type) {
+	case *parse.ListNode, *parse.VectorNode:
+	default:
+		return
+	}
+	nodes := semanticNodes(n.Children())
+	if len(nodes) == 0 || !goclj.Symbol(nodes[0]) {
+		return
+	}
+	name := nodes[0].(*parse.SymbolNode).Val
+	for i := 1; i+1 < len(nodes); i += 2 {
+		switch v := nodes[i+1].(type) {
+		case *parse.SymbolNode:
+			if isKeywordNode(nodes[i], ":as") {
+				p.requires[v.Val] = name
 			}
-			for _, ref := range []*referList{&r.refer, &r.referMacros} {
-				for _, n := range ref.origRefer {
+		case *parse.ListNode, *parse.VectorNode:
+			if isKeywordNode(nodes[i], ":refer") || isKeywordNode(nodes[i], ":refer-macros") {
+				for _, n := range v.Children() {
 					if n, ok := n.(*parse.SymbolNode); ok {
-						p.refers[n.Val] = r.name
+						p.refers[n.Val] = name
 					}
 				}
-				for ref := range ref.refer {
-					p.refers[ref] = r.name
-				}
 			}
 		}
 	}
-- 
2.43.0


From 01abc22fe7e54549667a8bedc78c4bb510998392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 34/45] fix: don't take ((comment ...) comment) for a comment
 form

---
 parse/node.go  |  2 ++
 parse/parse.go | 23 ++++++++++-------------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/parse/node.go b/parse/node.go
index 6fc7c34..f64fb1b 100644
--- a/parse/node.go
+++ b/parse/node.go
@@ -92,6 +92,8 @@ type ListNode struct {
 	*Pos
 	parent Node
 	Nodes  []Node
+
+	commentForm bool // whether it was parsed from (comment ...)
 }
 
 func (n *ListNode) String() string {
diff --git a/parse/parse.go b/parse/parse.go
index f3da96b..cf91bef 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -327,15 +327,22 @@ func (t *Tree) parseCharLiteral(tok token) *CharacterNode {
 
 func (t *Tree) parseList(start token) *ListNode {
 	var nodes []Node
+	first := true
+	commentForm := false
 	for {
 		switch tok := t.next(); tok.typ {
 		case tokRightParen:
-			return &ListNode{Pos: start.pos, Nodes: nodes}
+			return &ListNode{Pos: start.pos, Nodes: nodes, commentForm: commentForm}
 		case tokEOF:
 			t.unexpectedEOF(tok)
 		}
 		t.backup()
 		node := t.parseNext()
+		if _, ok := node.(*ReaderDiscardNode); first && isSemantic(node) && !(ok && t.ignoreReaderDiscard) {
+			first = false
+			sym, ok := node.(*SymbolNode)
+			commentForm = ok && sym.Val == "comment"
+		}
 		if t.includeNode(node) {
 			nodes = append(nodes, node)
 		}
@@ -538,18 +545,8 @@ func (t *Tree) parseVarQuote(start token) *VarQuoteNode {
 }
 
 func (t *Tree) includeNode(node Node) bool {
-	if list, ok := node.(*ListNode); ok {
-		children := list.Children()
-		for len(children) > 0 && !isSemantic(children[0]) {
-			children = children[1:]
-		}
-		if len(children) > 0 {
-			if sym, ok := children[0].(*SymbolNode); ok {
-				if sym.Val == "comment" && t.ignoreCommentForm {
-					return false
-				}
-			}
-		}
+	if list, ok := node.(*ListNode); ok && list.commentForm && t.ignoreCommentForm {
+		return false
 	}
 	if _, ok := node.(*ReaderDiscardNode); ok && t.ignoreReaderDiscard {
 		return false
-- 
2.43.0


From 5877d2d19fcb9073e6ac075148ba6f59087f681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:47 +0000
Subject: [PATCH 35/45] fix: discard metadata on metadata with
 IgnoreReaderDiscard

---
 parse/parse.go | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index cf91bef..2c742d2 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -232,22 +232,29 @@ func (t *Tree) parseNextSemantic() Node {
 // parseDiscarded parses what a #_ applies to, including any metadata or tags in
 // front of the item; other discarded items before it don't count.
 func (t *Tree) parseDiscarded() Node {
+	var n Node
+	for missing := 1; missing > 0; {
+		n = t.parseNextSemantic()
+		missing += missingForms(n) - 1
+	}
+	return n
+}
+
+// missingForms returns how many of the items after n (which are parsed as its
+// siblings) belong to n: the ones its metadata and tags apply to.
+func missingForms(n Node) int {
+	missing := 0
 	for {
-		n := t.parseNextSemantic()
-		last := n
-		for {
-			switch p := last.(type) {
-			case *QuoteNode, *SyntaxQuoteNode, *DerefNode, *UnquoteNode, *UnquoteSpliceNode, *ReaderEvalNode:
-				last = p.Children()[0]
-				continue
-			}
-			break
-		}
-		switch last.(type) {
-		case *MetadataNode, *TagNode:
-			continue
+		switch n.(type) {
+		case *TagNode:
+			return missing + 1
+		case *MetadataNode:
+			missing++
+		case *QuoteNode, *SyntaxQuoteNode, *DerefNode, *UnquoteNode, *UnquoteSpliceNode, *ReaderEvalNode:
+		default:
+			return missing
 		}
-		return n
+		n = n.Children()[0]
 	}
 }
 
-- 
2.43.0


From 053c3d9e9b2159bfb1d45f131a5f3c1806e9b3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 36/45] fix: keep the parents right in transformed trees

---
 format/transform.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/format/transform.go b/format/transform.go
index 00c4c5f..25ddc39 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -175,6 +175,22 @@ func applyTransforms(t *parse.Tree, transforms map[Transform]bool) {
 	if transforms[TransformRemoveExtraBlankLines] {
 		t.Roots = removeExtraBlankLines(t.Roots)
 	}
+	for _, root := range t.Roots {
+		linkParents(root)
+	}
+}
+
+// linkParents makes the nodes below n, some of which have been created or moved
+// by the transforms, refer to their parents.
+func linkParents(n parse.Node) {
+	children := n.Children()
+	if len(children) == 0 {
+		return
+	}
+	n.SetChildren(children)
+	for _, child := range children {
+		linkParents(child)
+	}
 }
 
 // terminateComments inserts any newlines that are missing after comments (a
-- 
2.43.0


From 3cd8671edcf38ea729eda483f4340f48c5b3fc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:58 +0000
Subject: [PATCH 37/45] fix: keep comments after ^, #_, and #= out of the
 prefixed form

---
 parse/parse.go | 67 ++++++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 35 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 2c742d2..65697c6 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -23,6 +23,7 @@ type Tree struct {
 	peekCount int
 	lex       *lexer
 	inLambda  bool
+	skipped   []Node // comments between a prefix and its form (and the newlines after them)
 }
 
 // String pretty-prints the tree recursively using each Node's String().
@@ -54,9 +55,7 @@ func (t *Tree) parse() (err error) {
 			break
 		}
 		linkParents(node)
-		if t.includeNode(node) {
-			t.Roots = append(t.Roots, node)
-		}
+		t.Roots = t.appendNode(t.Roots, node)
 	}
 	return nil
 }
@@ -237,6 +236,7 @@ func (t *Tree) parseDiscarded() Node {
 		n = t.parseNextSemantic()
 		missing += missingForms(n) - 1
 	}
+	t.skipped = nil
 	return n
 }
 
@@ -259,27 +259,27 @@ func missingForms(n Node) int {
 }
 
 // parsePrefixed parses the item following one of the prefixes ^, #_, and #=.
-// It is like parseNextSemantic except that a comment in between is kept (as the
-// prefixed item) if the tree includes non-semantic nodes.
+// It is like parseNextSemantic except that the comments before the item are kept
+// (in t.skipped).
 func (t *Tree) parsePrefixed() Node {
+	var skipped []Node
 	for {
-		tok := t.next()
-		switch tok.typ {
-		case tokEOF:
-			t.unexpectedEOF(tok)
-		case tokNewline:
-			continue
-		case tokComment:
-			if !t.includeNonSemantic {
-				continue
-			}
+		if next := t.next(); next.typ == tokEOF {
+			t.unexpectedEOF(next)
 		}
 		t.backup()
 		n := t.parseNext()
 		if _, ok := n.(*ReaderDiscardNode); ok && t.ignoreReaderDiscard {
 			continue
 		}
-		return n
+		if isSemantic(n) {
+			t.skipped = append(skipped, t.skipped...)
+			return n
+		}
+		_, newline := n.(*NewlineNode)
+		if t.includeNonSemantic && (!newline || len(skipped) > 0) {
+			skipped = append(skipped, n)
+		}
 	}
 }
 
@@ -350,9 +350,7 @@ func (t *Tree) parseList(start token) *ListNode {
 			sym, ok := node.(*SymbolNode)
 			commentForm = ok && sym.Val == "comment"
 		}
-		if t.includeNode(node) {
-			nodes = append(nodes, node)
-		}
+		nodes = t.appendNode(nodes, node)
 	}
 }
 
@@ -366,10 +364,7 @@ func (t *Tree) parseMap(start token) *MapNode {
 			t.unexpectedEOF(tok)
 		}
 		t.backup()
-		node := t.parseNext()
-		if t.includeNode(node) {
-			nodes = append(nodes, node)
-		}
+		nodes = t.appendNode(nodes, t.parseNext())
 	}
 }
 
@@ -383,10 +378,7 @@ func (t *Tree) parseVector(start token) *VectorNode {
 			t.unexpectedEOF(tok)
 		}
 		t.backup()
-		node := t.parseNext()
-		if t.includeNode(node) {
-			nodes = append(nodes, node)
-		}
+		nodes = t.appendNode(nodes, t.parseNext())
 	}
 }
 
@@ -450,10 +442,7 @@ func (t *Tree) parseFnLiteral(start token) *FnLiteralNode {
 			t.unexpectedEOF(tok)
 		}
 		t.backup()
-		node := t.parseNext()
-		if t.includeNode(node) {
-			nodes = append(nodes, node)
-		}
+		nodes = t.appendNode(nodes, t.parseNext())
 	}
 }
 
@@ -532,10 +521,7 @@ func (t *Tree) parseSet(start token) *SetNode {
 			t.unexpectedEOF(tok)
 		}
 		t.backup()
-		node := t.parseNext()
-		if t.includeNode(node) {
-			nodes = append(nodes, node)
-		}
+		nodes = t.appendNode(nodes, t.parseNext())
 	}
 }
 
@@ -551,6 +537,17 @@ func (t *Tree) parseVarQuote(start token) *VarQuoteNode {
 	panic("unreached")
 }
 
+// appendNode appends node to nodes if it should be included. Any comments which
+// were found between a prefix and its form inside node go in front.
+func (t *Tree) appendNode(nodes []Node, node Node) []Node {
+	nodes = append(nodes, t.skipped...)
+	t.skipped = nil
+	if t.includeNode(node) {
+		nodes = append(nodes, node)
+	}
+	return nodes
+}
+
 func (t *Tree) includeNode(node Node) bool {
 	if list, ok := node.(*ListNode); ok && list.commentForm && t.ignoreCommentForm {
 		return false
-- 
2.43.0


From c2ca6332092a5ed30d667bff3d5e41fbec593cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:37 +0000
Subject: [PATCH 38/45] fix: restore the file if rewriting it with -w fails

On a write error (such as a full disk) the source file was left truncated.
---
 cljfmt/cljfmt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index b263456..cb9b099 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -221,6 +221,9 @@ func (c *config) processFile(filename string, in io.Reader) error {
 		}
 		if c.write {
 			if err := ioutil.WriteFile(filename, buf2.Bytes(), perm); err != nil {
+				// The file may be truncated by now (on a full disk,
+				// for example); put the original back if we can.
+				ioutil.WriteFile(filename, buf1.Bytes(), perm)
 				return err
 			}
 		}
-- 
2.43.0


From 36f2149ce275dedc9e630d6aa69b6b32fa79c192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:37 +0000
Subject: [PATCH 39/45] fix: walk directories given as symbolic links

Walk does not follow its root, so that cljfmt silently did nothing.
---
 cljfmt/cljfmt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index cb9b099..da2d72b 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -253,7 +253,9 @@ func (c *config) walkDir(path string) {
 		}
 		return nil // not a Clojure file
 	}
-	if err := filepath.Walk(path, walk); err != nil {
+	// The trailing separator makes Walk follow path itself if it is a
+	// symbolic link to a directory.
+	if err := filepath.Walk(path+string(filepath.Separator), walk); err != nil {
 		log.Fatal(err)
 	}
 }
-- 
2.43.0


From 0c5433576f145783c97ae8be510e071b9214f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:36 +0000
Subject: [PATCH 40/45] fix: don't remove plain requires

A require of the form foo is loaded for its side effects just like [foo], which
was already kept.
---
 format/require.go   | 9 ++++++---
 format/transform.go | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/format/require.go b/format/require.go
index f022193..0e2c05d 100644
--- a/format/require.go
+++ b/format/require.go
@@ -208,8 +208,8 @@ type requireList struct {
 	items []requireItem // in the order they were added
 	// macros is true if this represents a :require-macros list.
 	macros bool
-	// keepBare means that requires of the form [foo] aren't recognized, so
-	// that they stay as they are.
+	// keepBare means that requires of the form [foo] or foo aren't recognized,
+	// so that they stay as they are.
 	keepBare bool
 
 	// unrecognized semantic nodes
@@ -295,8 +295,11 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 	rl.commentsBelow = append(rl.commentsBelow, lineComments...)
 }
 
-// bareRequire reports whether n is of the form [foo].
+// bareRequire reports whether n is of the form [foo] or foo.
 func bareRequire(n parse.Node) bool {
+	if goclj.Symbol(n) {
+		return true
+	}
 	v, ok := n.(*parse.VectorNode)
 	return ok && len(v.Nodes) == 1
 }
diff --git a/format/transform.go b/format/transform.go
index 25ddc39..7d74fa9 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -284,7 +284,7 @@ func removeUnusedRequires(ns parse.Node, syms *symbolCache) {
 		}
 		rl := newRequireList()
 		// As a special case, never remove requires of the form [foo]
-		// because they may be needed for their side-effects.
+		// (or plain foo) because they may be needed for their side-effects.
 		rl.keepBare = true
 		rl.parseRequireUse(n.Children(), false)
 		for name, r := range rl.m {
-- 
2.43.0


From 105597e4fa6713b305f7f1c09bc8752f91fa7dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:27 +0000
Subject: [PATCH 41/45] fix: leave the newlines of nameless defns and
 defmethods alone

(defmethod followed by several newlines and the dispatch value was rearranged
differently by every pass.
---
 format/transform.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/transform.go b/format/transform.go
index 7d74fa9..96c97b6 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -545,7 +545,7 @@ func fixDefnArglist(defn parse.Node) {
 	if !goclj.Newline(nodes[2]) || goclj.Newline(nodes[4]) {
 		return
 	}
-	if endsWithComment(nodes[1]) {
+	if goclj.Newline(nodes[1]) || endsWithComment(nodes[1]) {
 		return // the newline needs to stay there
 	}
 	if !goclj.Vector(nodes[3]) {
@@ -561,7 +561,7 @@ func fixDefmethodDispatchVal(defmethod parse.Node) {
 	if len(nodes) < 5 {
 		return
 	}
-	if !goclj.Newline(nodes[2]) || endsWithComment(nodes[1]) {
+	if !goclj.Newline(nodes[2]) || goclj.Newline(nodes[1]) || endsWithComment(nodes[1]) {
 		return
 	}
 	if !goclj.Keyword(nodes[3]) {
-- 
2.43.0


From 60716445fed2c90a011df99a42aac84a7b8ebb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:24 +0000
Subject: [PATCH 42/45] fix: don't take apart imports that don't name a class

(:import .x) became (:import ( x)), and (:import a.1) became (:import (a 1)).
---
 format/transform.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/format/transform.go b/format/transform.go
index 96c97b6..15b75e1 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -3,6 +3,8 @@ package format
 import (
 	"sort"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/cespare/goclj"
 	"github.com/cespare/goclj/parse"
@@ -404,7 +406,7 @@ func enforceImportStyle(nodes []parse.Node) {
 			nodes[i] = &parse.ListNode{Nodes: n.Nodes}
 		case *parse.SymbolNode:
 			j := strings.LastIndexByte(n.Val, '.')
-			if j < 0 {
+			if j <= 0 || !startsClassName(n.Val[j+1:]) {
 				break
 			}
 			nodes[i] = &parse.ListNode{
@@ -417,6 +419,11 @@ func enforceImportStyle(nodes []parse.Node) {
 	}
 }
 
+func startsClassName(s string) bool {
+	r, _ := utf8.DecodeRuneInString(s)
+	return unicode.IsLetter(r) || r == '_' || r == '$'
+}
+
 func sortNS(ns parse.Node) {
 	for _, n := range ns.Children()[1:] {
 		if goclj.FnFormKeyword(n, ":require", ":require-macros", ":import") {
-- 
2.43.0


From 35db477ce952ff0ebd34a044709ceab3321bbe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:43 +0000
Subject: [PATCH 43/45] fix: don't count newlines and comments in the length of
 a reader conditional

---
 parse/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse/node.go b/parse/node.go
index f64fb1b..fb9c5dc 100644
--- a/parse/node.go
+++ b/parse/node.go
@@ -344,7 +344,7 @@ type ReaderCondNode struct {
 }
 
 func (n *ReaderCondNode) String() string {
-	return fmt.Sprintf("reader-cond(length=%d)", len(n.Nodes))
+	return fmt.Sprintf("reader-cond(length=%d)", countSemantic(n.Nodes))
 }
 func (n *ReaderCondNode) Parent() Node     { return n.parent }
 func (n *ReaderCondNode) setParent(p Node) { n.parent = p }
@@ -366,7 +366,7 @@ type ReaderCondSpliceNode struct {
 }
 
 func (n *ReaderCondSpliceNode) String() string {
-	return fmt.Sprintf("reader-cond-splice(length=%d)", len(n.Nodes))
+	return fmt.Sprintf("reader-cond-splice(length=%d)", countSemantic(n.Nodes))
 }
 func (n *ReaderCondSpliceNode) Parent() Node     { return n.parent }
 func (n *ReaderCondSpliceNode) setParent(p Node) { n.parent = p }
-- 
2.43.0


From 7310410e86ee5afdbcfbee05e0dc79570a7df7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 44/45] fix: move the dispatch value of a defmethod up if
 nothing follows it

---
 format/transform.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/transform.go b/format/transform.go
index 15b75e1..80fadab 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -565,7 +565,7 @@ func fixDefnArglist(defn parse.Node) {
 
 func fixDefmethodDispatchVal(defmethod parse.Node) {
 	nodes := defmethod.Children()
-	if len(nodes) < 5 {
+	if len(nodes) < 4 {
 		return
 	}
 	if !goclj.Newline(nodes[2]) || goclj.Newline(nodes[1]) || endsWithComment(nodes[1]) {
@@ -576,7 +576,7 @@ func fixDefmethodDispatchVal(defmethod parse.Node) {
 	}
 	// Move the dispatch-val up to the same line.
 	// Insert a newline after if there wasn't one already.
-	if goclj.Newline(nodes[4]) {
+	if len(nodes) == 4 || goclj.Newline(nodes[4]) {
 		nodes = append(nodes[:2], nodes[3:]...)
 	} else {
 		nodes[2], nodes[3] = nodes[3], nodes[2]
-- 
2.43.0


From 56b20ca60832d7108b8db35072d860c88f141167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 45/45] fix: keep a comment above the first remaining use on
 its own line

If :use clauses are rewritten, the comment above the first item which stays
in the :use clause was put beside the :use keyword.
---
 format/require.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/require.go b/format/require.go
index 0e2c05d..999adbd 100644
--- a/format/require.go
+++ b/format/require.go
@@ -385,6 +385,9 @@ func (rl *requireList) render() []parse.Node {
 		extra := []parse.Node{
 			&parse.KeywordNode{Val: ":use"},
 		}
+		if len(rl.extraUse[0].comments.commentsAbove) > 0 {
+			extra = append(extra, newline())
+		}
 		for _, n := range rl.extraUse {
 			extra = n.render(extra)
 		}
-- 
2.43.0

