From 88d9b563d51a237505426649d3b579298817eb4b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:44 +0000
Subject: [PATCH 01/58] fix: skip newlines and comments after ^, #^, #_ and #=

A newline between one of these prefixes and its form became the prefix's
operand, and printing such a tree panicked.
---
 parse/parse.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 58e8e57..09729bb 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -436,7 +436,7 @@ func (t *Tree) parseMetadata(start token) *MetadataNode {
 		t.unexpectedEOF(tok)
 	}
 	t.backup()
-	return &MetadataNode{Pos: start.pos, Node: t.parseNext()}
+	return &MetadataNode{Pos: start.pos, Node: t.parseNextSemantic()}
 }
 
 func (t *Tree) parseReaderDiscard(start token) *ReaderDiscardNode {
@@ -445,7 +445,7 @@ func (t *Tree) parseReaderDiscard(start token) *ReaderDiscardNode {
 		t.unexpectedEOF(tok)
 	}
 	t.backup()
-	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseNext()}
+	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseNextSemantic()}
 }
 
 func (t *Tree) parseReaderEval(start token) *ReaderEvalNode {
@@ -454,7 +454,7 @@ func (t *Tree) parseReaderEval(start token) *ReaderEvalNode {
 		t.unexpectedEOF(tok)
 	}
 	t.backup()
-	return &ReaderEvalNode{Pos: start.pos, Node: t.parseNext()}
+	return &ReaderEvalNode{Pos: start.pos, Node: t.parseNextSemantic()}
 }
 
 func (t *Tree) parseRegex(start token) *RegexNode {
-- 
2.43.0


From 04b712f37aa7e474ffedf09a17431f1f7f32505b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:45 +0000
Subject: [PATCH 02/58] fix: keep unquoted derefs distinct from unquote-splices

"~ @x" was parsed as (and formatted to) "~@x", which means something else.
---
 format/format.go | 4 ++++
 parse/parse.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/format/format.go b/format/format.go
index 64b2c35..7e39f0f 100644
--- a/format/format.go
+++ b/format/format.go
@@ -196,6 +196,10 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		return w + p.writeString("#"+node.Val)
 	case *parse.UnquoteNode:
 		w += p.writeByte('~')
+		if _, ok := node.Node.(*parse.DerefNode); ok {
+			// "~@" would read as an unquote-splice.
+			w += p.writeByte(' ')
+		}
 		return p.printNode(node.Node, w)
 	case *parse.UnquoteSpliceNode:
 		w += p.writeString("~@")
diff --git a/parse/parse.go b/parse/parse.go
index 09729bb..59bec17 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -189,6 +189,10 @@ func (t *Tree) parseNext() Node {
 			next := t.next()
 			switch next.typ {
 			case tokAtSign:
+				// "~ @x" is an unquote of a deref; only "~@x" is a splice.
+				if next.pos.Offset != tok.pos.Offset+1 {
+					break
+				}
 				return &UnquoteSpliceNode{Pos: tok.pos, Node: t.parseNextSemantic()}
 			case tokEOF:
 				t.unexpectedEOF(next)
-- 
2.43.0


From 6b91f9124785d4a7cf966cb02dfed20ad72d9632 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:46 +0000
Subject: [PATCH 03/58] fix: keep tags such as "# _" distinct from dispatch
 macros

"# _ x" (the tag _) was formatted to "#_ x", which discards x.
---
 format/format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/format.go b/format/format.go
index 7e39f0f..e21d1a9 100644
--- a/format/format.go
+++ b/format/format.go
@@ -193,6 +193,10 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		w += p.writeByte('`')
 		return p.printNode(node.Node, w)
 	case *parse.TagNode:
+		if strings.IndexAny(node.Val, "_?=!<") == 0 {
+			// Without a space this would read as a dispatch macro.
+			return w + p.writeString("# "+node.Val)
+		}
 		return w + p.writeString("#"+node.Val)
 	case *parse.UnquoteNode:
 		w += p.writeByte('~')
-- 
2.43.0


From 579efa888022ab70123e8bce0bed383bace3ae2b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:42 +0000
Subject: [PATCH 04/58] fix: don't realign a def'd string that is followed only
 by comments

The value of (def s "a
    b" ; comment
  ) was taken for a docstring and its contents were changed.
---
 format/docstring.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/docstring.go b/format/docstring.go
index 4a0db83..258479a 100644
--- a/format/docstring.go
+++ b/format/docstring.go
@@ -31,6 +31,10 @@ func (p *Printer) markDocstrings(n parse.Node) {
 		//   (def s "this is a docstring" "x")
 		//
 		if docstring != nil {
+			switch node.(type) {
+			case *parse.CommentNode, *parse.ReaderDiscardNode:
+				continue // not something else
+			}
 			p.docstrings[docstring] = struct{}{}
 			return
 		}
-- 
2.43.0


From 55c897e6f04be376ae755af469ebd0ab531e18e2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:43 +0000
Subject: [PATCH 05/58] fix: never print code or a closing delimiter after a
 comment on its line

A comment that ends in a lone carriage return, or that precedes a moved
arglist or dispatch value, swallowed the code printed after it.
---
 format/format.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/format/format.go b/format/format.go
index e21d1a9..350fd6f 100644
--- a/format/format.go
+++ b/format/format.go
@@ -92,7 +92,9 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 			}
 		}
 	}()
+	t.Roots = terminateComments(t.Roots, false)
 	applyTransforms(t, p.Transforms)
+	t.Roots = terminateComments(t.Roots, false)
 	for _, node := range t.Roots {
 		p.markDocstrings(node)
 		p.markThreadFirsts(node)
@@ -102,6 +104,31 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 	return p.bw.Flush()
 }
 
+// terminateComments returns nodes with newlines added, at every level, after
+// comments that aren't followed by one. (Comments can also be ended by a
+// carriage return, which isn't kept in the tree.) Otherwise, such a comment
+// would swallow whatever is printed after it. The final node doesn't need a
+// newline unless there is a closing delimiter.
+func terminateComments(nodes []parse.Node, delimited bool) []parse.Node {
+	for i := 0; i < len(nodes); i++ {
+		switch n := nodes[i].(type) {
+		case *parse.CommentNode:
+			last := i == len(nodes)-1
+			if last && !delimited || !last && goclj.Newline(nodes[i+1]) {
+				continue
+			}
+			rest := append([]parse.Node{new(parse.NewlineNode)}, nodes[i+1:]...)
+			nodes = append(nodes[:i+1:i+1], rest...)
+		default:
+			children := n.Children()
+			if fixed := terminateComments(children, true); len(fixed) != len(children) {
+				n.SetChildren(fixed)
+			}
+		}
+	}
+	return nodes
+}
+
 // printNode prints a representation of node using w, the given indent level
 // as a baseline. It returns the new indent.
 func (p *Printer) printNode(node parse.Node, w int) int {
-- 
2.43.0


From 035de3235979e6d6146d414609da3545cfd9f94e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:44 +0000
Subject: [PATCH 06/58] fix: report the positions of tags, reader conditionals
 and namespaced maps

They were off by the length of the dispatch token, and an input ending in #
or #? gave an error without a position.
---
 parse/lex.go   | 8 ++++----
 parse/parse.go | 1 +
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/parse/lex.go b/parse/lex.go
index 85ad163..73a2960 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -419,7 +419,7 @@ func lexDispatch(l *lexer) stateFn {
 	r, eof := l.next()
 	if eof {
 		l.emit(tokOctothorpe)
-		return nil
+		return l.eof()
 	}
 	val := string(l.val)
 	switch r {
@@ -433,14 +433,15 @@ func lexDispatch(l *lexer) stateFn {
 		r, eof = l.next()
 		if eof {
 			l.synth(tokDispatch, val)
-			return nil
+			l.skip()
+			return l.eof()
 		}
 		if r != '@' {
 			l.back()
 		}
 		val = string(l.val)
-		l.skip()
 		l.synth(tokDispatch, val)
+		l.skip()
 		return lexOuter
 	case ':':
 		l.synth(tokDispatch, val)
@@ -460,7 +461,6 @@ func lexDispatch(l *lexer) stateFn {
 		l.errorf("unreadable dispatch macro")
 	default:
 		l.back()
-		l.skip()
 		l.emit(tokOctothorpe)
 	}
 	return lexOuter
diff --git a/parse/parse.go b/parse/parse.go
index 59bec17..a401f7b 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -430,6 +430,7 @@ func (t *Tree) parseNamespacedMap(start token) *MapNode {
 		t.errorf(tok.pos, "namespaced map must have a map")
 	}
 	m := t.parseMap(tok)
+	m.Pos = start.pos
 	m.Namespace = ns
 	return m
 }
-- 
2.43.0


From 4b38ca7948a1aa6a7b0c7e641fa3c1fadd8a1dd7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 07/58] fix: character literals: \backspace, short octal
 escapes, signs

\backspace had the value of delete, \o7 was rejected although \o007 is not
required, and \u+123 was accepted.
---
 parse/parse.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index a401f7b..6db2156 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -250,20 +250,20 @@ func (t *Tree) parseCharLiteral(tok token) *CharacterNode {
 		case "formfeed":
 			r = '\f'
 		case "backspace":
-			r = 0x7f
+			r = '\b'
 		case "return":
 			r = '\r'
 		default:
 			switch runes[0] {
 			case 'o':
-				n, err := strconv.ParseInt(val[1:], 8, 32)
-				if len(val) != 4 || err != nil || n < 0 {
+				n, err := strconv.ParseUint(val[1:], 8, 32)
+				if len(val) > 4 || err != nil || n > 0377 {
 					t.errorf(tok.pos, "invalid octal literal")
 				}
 				r = rune(n)
 			case 'u':
-				n, err := strconv.ParseInt(val[1:], 16, 32)
-				if len(val) != 5 || err != nil || n < 0 {
+				n, err := strconv.ParseUint(val[1:], 16, 32)
+				if len(val) != 5 || err != nil {
 					t.errorf(tok.pos, "invalid unicode literal")
 				}
 				r = rune(n)
-- 
2.43.0


From 2fbd2cf83aa716c9a9d52635fc56b8bdecde094b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:46 +0000
Subject: [PATCH 08/58] fix: accept the symbolic values ##Inf, ##-Inf and ##NaN

They were rejected with: unexpected token "".
---
 parse/lex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/lex.go b/parse/lex.go
index 73a2960..2a95824 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -456,6 +456,9 @@ func lexDispatch(l *lexer) stateFn {
 	case '!':
 		// #! is a reader dispatch macro for comments.
 		return lexComment
+	case '#':
+		// ##Inf, ##-Inf and ##NaN are the symbolic values.
+		return lexSymbol
 	case '<':
 		// #< is the 'unreadable' reader dispatch macro.
 		l.errorf("unreadable dispatch macro")
-- 
2.43.0


From eddfcb540979d4f03dd6ecbf73edb000eea01e46 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:05 +0000
Subject: [PATCH 09/58] fix: end the lexer's goroutine when parsing stops at an
 error

It stayed blocked sending the next token forever.
---
 parse/lex.go   | 23 ++++++++++++++++++-----
 parse/parse.go |  1 +
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/parse/lex.go b/parse/lex.go
index 2a95824..168f5f1 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"runtime"
 	"unicode"
 )
 
@@ -127,7 +128,8 @@ type lexer struct {
 	start   *Pos // the start position of the token being scanned
 	lastPos *Pos // the position before the most recent next() call
 	tokens  chan token
-	val     []rune // the literal contents of the token
+	done    chan struct{} // closed when no more tokens will be received
+	val     []rune        // the literal contents of the token
 }
 
 func lex(name string, input *bufio.Reader) *lexer {
@@ -137,6 +139,7 @@ func lex(name string, input *bufio.Reader) *lexer {
 		pos:    &Pos{Name: name, Line: 1, Col: 1},
 		start:  &Pos{Name: name, Line: 1, Col: 1},
 		tokens: make(chan token),
+		done:   make(chan struct{}),
 	}
 	go l.run()
 	return l
@@ -210,8 +213,18 @@ func (l *lexer) scanUntil(set string) {
 	}
 }
 
+// send delivers t to the parser. If the parser has given up, it ends the
+// lexer's goroutine instead.
+func (l *lexer) send(t token) {
+	select {
+	case l.tokens <- t:
+	case <-l.done:
+		runtime.Goexit()
+	}
+}
+
 func (l *lexer) emit(typ tokType) {
-	l.tokens <- token{typ, l.start, string(l.val)}
+	l.send(token{typ, l.start, string(l.val)})
 	l.skip()
 }
 
@@ -221,7 +234,7 @@ func (l *lexer) skip() {
 }
 
 func (l *lexer) synth(typ tokType, val string) {
-	l.tokens <- token{typ, l.start, val}
+	l.send(token{typ, l.start, val})
 }
 
 func (l *lexer) nextToken() token {
@@ -229,12 +242,12 @@ func (l *lexer) nextToken() token {
 }
 
 func (l *lexer) errorf(format string, args ...interface{}) stateFn {
-	l.tokens <- token{tokError, l.start, fmt.Sprintf(format, args...)}
+	l.send(token{tokError, l.start, fmt.Sprintf(format, args...)})
 	return nil
 }
 
 func (l *lexer) scanError(err error) stateFn {
-	l.tokens <- token{tokError, l.start, fmt.Sprintf("error while scanning: %s", err)}
+	l.send(token{tokError, l.start, fmt.Sprintf("error while scanning: %s", err)})
 	return nil
 }
 
diff --git a/parse/parse.go b/parse/parse.go
index 6db2156..7666e54 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -131,6 +131,7 @@ func Reader(r io.Reader, filename string, opts ParseOpts) (*Tree, error) {
 		ignoreReaderDiscard: opts&IgnoreReaderDiscard != 0,
 		lex:                 lex(filename, bufio.NewReader(r)),
 	}
+	defer close(t.lex.done) // the lexer may still be waiting to send a token
 	if err := t.parse(); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From f3040c4a28b656f319f74c63b221288109ce66c4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:38 +0000
Subject: [PATCH 10/58] fix: don't share one newline node between all formatted
 trees

Formatting two trees concurrently was a data race on its parent.
---
 format/require.go   | 25 +++++++++++++------------
 format/transform.go | 10 +++++-----
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/format/require.go b/format/require.go
index 9a58714..a1a5031 100644
--- a/format/require.go
+++ b/format/require.go
@@ -150,7 +150,8 @@ type nodeComments struct {
 	commentsBesideMerged bool
 }
 
-var newline = &parse.NewlineNode{}
+// newline returns a new node: nodes have a parent, so trees must not share them.
+func newline() *parse.NewlineNode { return new(parse.NewlineNode) }
 
 func (nc *nodeComments) attachCommentsAbove(cs []*parse.CommentNode) {
 	nc.commentsAbove = append(nc.commentsAbove, cs...)
@@ -261,10 +262,10 @@ func (rl *requireList) render() []parse.Node {
 	} else {
 		nodes = append(nodes, &parse.KeywordNode{Val: ":require"})
 	}
-	nodes = append(nodes, newline)
+	nodes = append(nodes, newline())
 	for _, r := range rl.m {
 		for _, c := range r.comments.commentsAbove {
-			nodes = append(nodes, c, newline)
+			nodes = append(nodes, c, newline())
 		}
 		parts := []parse.Node{&parse.SymbolNode{Val: r.name}}
 		as := sortStringSet(r.as)
@@ -278,7 +279,7 @@ func (rl *requireList) render() []parse.Node {
 					&parse.SymbolNode{Val: as[0]},
 				},
 			}
-			nodes = append(nodes, n, newline)
+			nodes = append(nodes, n, newline())
 			as = as[1:]
 		}
 		if len(as) > 0 {
@@ -302,25 +303,25 @@ func (rl *requireList) render() []parse.Node {
 		if r.comments.commentBeside != nil {
 			nodes = append(nodes, r.comments.commentBeside)
 		}
-		nodes = append(nodes, newline)
+		nodes = append(nodes, newline())
 	}
 	for _, r := range rl.extraRequire {
 		for _, c := range r.comments.commentsAbove {
-			nodes = append(nodes, c, newline)
+			nodes = append(nodes, c, newline())
 		}
 		nodes = append(nodes, r.n)
 		if r.comments.commentBeside != nil {
 			nodes = append(nodes, r.comments.commentBeside)
 		}
-		nodes = append(nodes, newline)
+		nodes = append(nodes, newline())
 	}
 	for _, c := range rl.commentsBelow {
-		nodes = append(nodes, c, newline)
+		nodes = append(nodes, c, newline())
 	}
 
 	list := []parse.Node{
 		&parse.ListNode{Nodes: nodes},
-		newline,
+		newline(),
 	}
 	if len(rl.extraUse) > 0 {
 		extra := []parse.Node{
@@ -328,17 +329,17 @@ func (rl *requireList) render() []parse.Node {
 		}
 		for _, n := range rl.extraUse {
 			for _, c := range n.comments.commentsAbove {
-				extra = append(extra, c, newline)
+				extra = append(extra, c, newline())
 			}
 			extra = append(extra, n.n)
 			if n.comments.commentBeside != nil {
 				extra = append(extra, n.comments.commentBeside)
 			}
-			extra = append(extra, newline)
+			extra = append(extra, newline())
 		}
 		list = append(list,
 			&parse.ListNode{Nodes: extra},
-			newline,
+			newline(),
 		)
 	}
 	return list
diff --git a/format/transform.go b/format/transform.go
index 2e29b3b..8f4acfa 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -286,7 +286,7 @@ func enforceNSStyle(ns parse.Node) {
 		}
 		if multipleArgs && len(clauseChildren) >= 2 && goclj.Semantic(clauseChildren[1]) {
 			clauseChildren = append(
-				[]parse.Node{clauseChildren[0], newline},
+				[]parse.Node{clauseChildren[0], newline()},
 				clauseChildren[1:]...,
 			)
 		}
@@ -390,21 +390,21 @@ func sortImportRequire(n *parse.ListNode) {
 	sort.Stable(sorted)
 	newNodes := []parse.Node{nodes[0]}
 	if initialNewline {
-		newNodes = append(newNodes, newline)
+		newNodes = append(newNodes, newline())
 	}
 	for _, ir := range sorted {
 		for _, cn := range ir.commentsAbove {
-			newNodes = append(newNodes, cn, newline)
+			newNodes = append(newNodes, cn, newline())
 		}
 		newNodes = append(newNodes, ir.node)
 		if ir.commentBeside != nil {
 			newNodes = append(newNodes, ir.commentBeside)
 		}
-		newNodes = append(newNodes, newline)
+		newNodes = append(newNodes, newline())
 	}
 	// unattached comments at the bottom
 	for _, cn := range lineComments {
-		newNodes = append(newNodes, cn, newline)
+		newNodes = append(newNodes, cn, newline())
 	}
 	// drop trailing newline
 	if len(newNodes) >= 2 && !goclj.Comment(newNodes[len(newNodes)-2]) {
-- 
2.43.0


From 3336cde4a7405889850c41ea410578b728482d75 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:38 +0000
Subject: [PATCH 11/58] fix: make PrintTree independent of earlier prints and
 of other printers

It modified the caller's Transforms map (or made Transforms an alias of
DefaultTransforms), and the aliases and refers of one tree applied to the
next tree printed by the same Printer.
---
 format/format.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/format/format.go b/format/format.go
index 350fd6f..1a4db9b 100644
--- a/format/format.go
+++ b/format/format.go
@@ -71,15 +71,19 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 	for k, v := range p.ThreadFirstStyleOverrides {
 		p.threadFirstStyles[k] = v
 	}
-	if p.Transforms == nil {
-		p.Transforms = DefaultTransforms
-	} else {
-		for k, v := range DefaultTransforms {
-			if _, ok := p.Transforms[k]; !ok {
-				p.Transforms[k] = v
-			}
-		}
+	transforms := make(map[Transform]bool)
+	for k, v := range DefaultTransforms {
+		transforms[k] = v
+	}
+	for k, v := range p.Transforms {
+		transforms[k] = v
 	}
+	// Forget any previously printed tree.
+	p.specialIndent = make(map[parse.Node]IndentStyle)
+	p.threadFirst = make(map[parse.Node]struct{})
+	p.docstrings = make(map[*parse.StringNode]struct{})
+	p.requires = make(map[string]string)
+	p.refers = make(map[string]string)
 	defer func() {
 		if e := recover(); e != nil {
 			switch e := e.(type) {
@@ -93,7 +97,7 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 		}
 	}()
 	t.Roots = terminateComments(t.Roots, false)
-	applyTransforms(t, p.Transforms)
+	applyTransforms(t, transforms)
 	t.Roots = terminateComments(t.Roots, false)
 	for _, node := range t.Roots {
 		p.markDocstrings(node)
-- 
2.43.0


From 3540cc896b02830e117e54582043522feb3e24c6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 12/58] fix: order rewritten requires deterministically

With use-to-require or remove-unused-requires on and sort-import-require
off, they were written in random order.
---
 format/require.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/format/require.go b/format/require.go
index a1a5031..1911fe4 100644
--- a/format/require.go
+++ b/format/require.go
@@ -263,7 +263,13 @@ func (rl *requireList) render() []parse.Node {
 		nodes = append(nodes, &parse.KeywordNode{Val: ":require"})
 	}
 	nodes = append(nodes, newline())
-	for _, r := range rl.m {
+	var names []string
+	for name := range rl.m {
+		names = append(names, name)
+	}
+	sort.Strings(names) // for deterministic output
+	for _, name := range names {
+		r := rl.m[name]
 		for _, c := range r.comments.commentsAbove {
 			nodes = append(nodes, c, newline())
 		}
-- 
2.43.0


From 3fb0bba8b287b3b0ee96e9b6c3a8b4e402173e3e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:40 +0000
Subject: [PATCH 13/58] fix: don't take a newline before an if's test for one
 before its first arm

(if
  a b c) became (if
  a b
  c), with only one of the arms on its own line.
---
 format/transform.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/transform.go b/format/transform.go
index 8f4acfa..46d35c3 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -526,6 +526,7 @@ func enforceConsistentIfNewlines(nodes []parse.Node) []parse.Node {
 		}
 		if !foundTest {
 			foundTest = true
+			newlineBeforeArm0 = false // it was before the test
 			continue
 		}
 		arm0 = i
-- 
2.43.0


From 4866b3efc9b841cbaace21a9ebedf75f5d4207ba Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:40 +0000
Subject: [PATCH 14/58] fix: indent a paired element by two columns after blank
 lines, too

Each blank line between a key and its value added two more columns, all but
two of which also shifted the remaining elements.
---
 format/format.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index 1a4db9b..b35d841 100644
--- a/format/format.go
+++ b/format/format.go
@@ -685,7 +685,9 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 				IndentCond2,
 				IndentCond4:
 				if pairIdx > 0 {
-					w += 2
+					if !extraIndent {
+						w += 2
+					}
 					extraIndent = true
 				} else if i == 1 && semanticIdx == 1 {
 					w++
-- 
2.43.0


From 7faddd7897ad4b7da786bd9dcf134190e83450b9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:01 +0000
Subject: [PATCH 15/58] fix: prefer an indent override for a qualified name as
 written

An override for my.ns/update had no effect on my.ns/update, because the rule
for plain update was consulted first.
---
 format/format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/format.go b/format/format.go
index b35d841..9bdb570 100644
--- a/format/format.go
+++ b/format/format.go
@@ -388,6 +388,9 @@ func (p *Printer) indentStyleForSymbol(name string) (IndentStyle, bool) {
 				return style, true
 			}
 		}
+		if style, ok := p.indentStyles[name]; ok {
+			return style, true
+		}
 		if style, ok := p.indentStyles[unqualified]; ok {
 			return style, true
 		}
-- 
2.43.0


From 12d022f21eac8d42abbc8d056d6bc2a30c22cff4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:32 +0000
Subject: [PATCH 16/58] fix: IgnoreReaderDiscard drops what the Clojure reader
 drops

Of #_ #_ a b only a was dropped, of #_ ^:m a only the metadata, and a
discard between a quote and its form was taken for the quoted form.
---
 parse/parse.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/parse/parse.go b/parse/parse.go
index 7666e54..86b843c 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -225,6 +225,9 @@ func (t *Tree) parseNextSemantic() Node {
 		}
 		t.backup()
 		n := t.parseNext()
+		if _, ok := n.(*ReaderDiscardNode); ok && t.ignoreReaderDiscard {
+			continue
+		}
 		if isSemantic(n) {
 			return n
 		}
@@ -451,7 +454,27 @@ func (t *Tree) parseReaderDiscard(start token) *ReaderDiscardNode {
 		t.unexpectedEOF(tok)
 	}
 	t.backup()
-	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseNextSemantic()}
+	node := t.parseNextSemantic()
+	if t.ignoreReaderDiscard {
+		// Metadata and tags precede the form they apply to,
+		// and the whole form is discarded.
+		for last := node; !isCompleteForm(last); {
+			last = t.parseNextSemantic()
+		}
+	}
+	return &ReaderDiscardNode{Pos: start.pos, Node: node}
+}
+
+// isCompleteForm reports whether n isn't just metadata or a tag
+// (possibly quoted) which applies to the form that follows.
+func isCompleteForm(n Node) bool {
+	switch n := n.(type) {
+	case *MetadataNode, *TagNode:
+		return false
+	case *DerefNode, *QuoteNode, *SyntaxQuoteNode, *UnquoteNode, *UnquoteSpliceNode, *ReaderEvalNode:
+		return isCompleteForm(n.Children()[0])
+	}
+	return true
 }
 
 func (t *Tree) parseReaderEval(start token) *ReaderEvalNode {
-- 
2.43.0


From 8e608ab2a58df6514da1c51319a69934351c8a0d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:32 +0000
Subject: [PATCH 17/58] fix: recognize (comment ...) forms whose head follows a
 newline or comment

With IncludeNonSemantic, IgnoreCommentForm kept them.
---
 parse/parse.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parse/parse.go b/parse/parse.go
index 86b843c..aa0419d 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -465,6 +465,14 @@ func (t *Tree) parseReaderDiscard(start token) *ReaderDiscardNode {
 	return &ReaderDiscardNode{Pos: start.pos, Node: node}
 }
 
+// isForm reports whether n is neither a comment, nor a newline, nor discarded.
+func isForm(n Node) bool {
+	if _, ok := n.(*ReaderDiscardNode); ok {
+		return false
+	}
+	return isSemantic(n)
+}
+
 // isCompleteForm reports whether n isn't just metadata or a tag
 // (possibly quoted) which applies to the form that follows.
 func isCompleteForm(n Node) bool {
@@ -530,6 +538,9 @@ func (t *Tree) parseVarQuote(start token) *VarQuoteNode {
 func (t *Tree) includeNode(node Node) bool {
 	if list, ok := node.(*ListNode); ok {
 		children := list.Children()
+		for len(children) > 0 && !isForm(children[0]) {
+			children = children[1:]
+		}
 		if len(children) > 0 {
 			if sym, ok := children[0].(*SymbolNode); ok {
 				if sym.Val == "comment" && t.ignoreCommentForm {
-- 
2.43.0


From 563f1ea63bb0d7b65de0781f8b5754a30d5efe5f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:33 +0000
Subject: [PATCH 18/58] fix: fail when the output can't be written

cljfmt exited with status 0 if writing to standard output failed.
---
 cljfmt/cljfmt.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index 5035238..b263456 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -215,7 +215,9 @@ func (c *config) processFile(filename string, in io.Reader) error {
 	}
 	if !bytes.Equal(buf1.Bytes(), buf2.Bytes()) {
 		if c.list {
-			fmt.Println(filename)
+			if _, err := fmt.Println(filename); err != nil {
+				return err
+			}
 		}
 		if c.write {
 			if err := ioutil.WriteFile(filename, buf2.Bytes(), perm); err != nil {
@@ -224,7 +226,9 @@ func (c *config) processFile(filename string, in io.Reader) error {
 		}
 	}
 	if !c.list && !c.write {
-		io.Copy(os.Stdout, &buf2)
+		if _, err := io.Copy(os.Stdout, &buf2); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 0315e2353a92b0ebc32c9492d76a6e91a80c960a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:56 +0000
Subject: [PATCH 19/58] fix: keep a backup while rewriting a file

If writing failed or was interrupted, the source was lost: it is truncated
first. Like gofmt, keep a backup next to the file until it is written.
---
 cljfmt/cljfmt.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index b263456..254bbae 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -220,7 +220,15 @@ func (c *config) processFile(filename string, in io.Reader) error {
 			}
 		}
 		if c.write {
+			backup, err := writeBackup(filename, buf1.Bytes(), perm)
+			if err != nil {
+				return err
+			}
 			if err := ioutil.WriteFile(filename, buf2.Bytes(), perm); err != nil {
+				os.Rename(backup, filename)
+				return err
+			}
+			if err := os.Remove(backup); err != nil {
 				return err
 			}
 		}
@@ -233,6 +241,28 @@ func (c *config) processFile(filename string, in io.Reader) error {
 	return nil
 }
 
+// writeBackup writes data, the contents of filename, to a new file next to it
+// so that they aren't lost if rewriting filename is interrupted.
+func writeBackup(filename string, data []byte, perm os.FileMode) (backup string, err error) {
+	f, err := ioutil.TempFile(filepath.Dir(filename), "."+filepath.Base(filename)+".")
+	if err != nil {
+		return "", err
+	}
+	defer func() {
+		if err1 := f.Close(); err == nil {
+			err = err1
+		}
+		if err != nil {
+			os.Remove(f.Name())
+		}
+	}()
+	if err := f.Chmod(perm); err != nil {
+		return "", err
+	}
+	_, err = f.Write(data)
+	return f.Name(), err
+}
+
 func (c *config) walkDir(path string) {
 	walk := func(path string, f os.FileInfo, err error) error {
 		if err != nil {
-- 
2.43.0


From d18d0e710ad53194b9e3f87c04f020658554314e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 20/58] fix: keep metadata and tags with their import or
 require when sorting

Sorting (:require ^:m [b] [a]) moved the metadata to the end of the clause,
and the two forms discarded by #_ #_ were separated from it.
---
 format/transform.go | 50 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/format/transform.go b/format/transform.go
index 46d35c3..ab9f887 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -363,6 +363,8 @@ func sortImportRequire(n *parse.ListNode) {
 		lineComments      []*parse.CommentNode
 		initialNewline    = false
 		afterSemanticNode = false
+		prefix            []parse.Node // metadata and such for the next item
+		missing           = 0          // the number of forms prefix lacks
 	)
 	for i, node := range nodes[1:] {
 		switch node := node.(type) {
@@ -378,15 +380,29 @@ func sortImportRequire(n *parse.ListNode) {
 			}
 			afterSemanticNode = false
 		default:
+			if missing > 0 && !isDiscard(node) {
+				missing--
+			}
+			missing += missingForms(node)
+			if missing > 0 {
+				prefix = append(prefix, node)
+				afterSemanticNode = false
+				continue
+			}
 			ir := &importRequire{
 				commentsAbove: lineComments,
+				prefix:        prefix,
 				node:          node,
 			}
+			prefix = nil
 			sorted = append(sorted, ir)
 			lineComments = nil
 			afterSemanticNode = true
 		}
 	}
+	if i := len(prefix) - 1; i >= 0 { // the last form is missing
+		sorted = append(sorted, &importRequire{prefix: prefix[:i], node: prefix[i]})
+	}
 	sort.Stable(sorted)
 	newNodes := []parse.Node{nodes[0]}
 	if initialNewline {
@@ -396,6 +412,7 @@ func sortImportRequire(n *parse.ListNode) {
 		for _, cn := range ir.commentsAbove {
 			newNodes = append(newNodes, cn, newline())
 		}
+		newNodes = append(newNodes, ir.prefix...)
 		newNodes = append(newNodes, ir.node)
 		if ir.commentBeside != nil {
 			newNodes = append(newNodes, ir.commentBeside)
@@ -570,9 +587,42 @@ func enforceConsistentIfNewlines(nodes []parse.Node) []parse.Node {
 type importRequire struct {
 	commentsAbove []*parse.CommentNode
 	commentBeside *parse.CommentNode
+	prefix        []parse.Node // metadata, tags, and discards that belong to node
 	node          parse.Node
 }
 
+// missingForms reports how many of the forms that follow n belong to n.
+// (For example, the form that follows metadata, or the second form that is
+// discarded by #_ #_.)
+func missingForms(n parse.Node) int {
+	missing := 0
+	switch n.(type) {
+	case *parse.TagNode:
+		return 1
+	case *parse.MetadataNode:
+		missing = 1
+	case *parse.DerefNode,
+		*parse.QuoteNode,
+		*parse.SyntaxQuoteNode,
+		*parse.UnquoteNode,
+		*parse.UnquoteSpliceNode,
+		*parse.ReaderEvalNode,
+		*parse.ReaderDiscardNode:
+	default:
+		return 0
+	}
+	operand := n.Children()[0]
+	if isDiscard(operand) {
+		missing++
+	}
+	return missing + missingForms(operand)
+}
+
+func isDiscard(n parse.Node) bool {
+	_, ok := n.(*parse.ReaderDiscardNode)
+	return ok
+}
+
 type importRequireList []*importRequire
 
 func (l importRequireList) Len() int      { return len(l) }
-- 
2.43.0


From 2c06a43567c9163b1a68f35f7fde7fb05dbfbf50 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 21/58] fix: keep a comment beside :require or :import there
 when sorting

It moved with the first item, so that the clause lost its initial newline,
and formatting the result again gave something else.
---
 format/transform.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/format/transform.go b/format/transform.go
index ab9f887..ecbd6d8 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -361,6 +361,7 @@ func sortImportRequire(n *parse.ListNode) {
 		nodes             = n.Children()
 		sorted            = make(importRequireList, 0, len(nodes)/2)
 		lineComments      []*parse.CommentNode
+		headComment       *parse.CommentNode // beside the clause keyword
 		initialNewline    = false
 		afterSemanticNode = false
 		prefix            []parse.Node // metadata and such for the next item
@@ -369,7 +370,10 @@ func sortImportRequire(n *parse.ListNode) {
 	for i, node := range nodes[1:] {
 		switch node := node.(type) {
 		case *parse.CommentNode:
-			if afterSemanticNode {
+			if i == 0 {
+				headComment = node
+				initialNewline = true
+			} else if afterSemanticNode {
 				sorted[len(sorted)-1].commentBeside = node
 			} else {
 				lineComments = append(lineComments, node)
@@ -405,6 +409,9 @@ func sortImportRequire(n *parse.ListNode) {
 	}
 	sort.Stable(sorted)
 	newNodes := []parse.Node{nodes[0]}
+	if headComment != nil {
+		newNodes = append(newNodes, headComment)
+	}
 	if initialNewline {
 		newNodes = append(newNodes, newline())
 	}
-- 
2.43.0


From c525983c7259719ad3a36c9a4f6015359bf8b203 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:28 +0000
Subject: [PATCH 22/58] fix: don't count newlines and comments in a reader
 conditional's length

---
 parse/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse/node.go b/parse/node.go
index 6fc7c34..62a2973 100644
--- a/parse/node.go
+++ b/parse/node.go
@@ -342,7 +342,7 @@ type ReaderCondNode struct {
 }
 
 func (n *ReaderCondNode) String() string {
-	return fmt.Sprintf("reader-cond(length=%d)", len(n.Nodes))
+	return fmt.Sprintf("reader-cond(length=%d)", countSemantic(n.Nodes))
 }
 func (n *ReaderCondNode) Parent() Node     { return n.parent }
 func (n *ReaderCondNode) setParent(p Node) { n.parent = p }
@@ -364,7 +364,7 @@ type ReaderCondSpliceNode struct {
 }
 
 func (n *ReaderCondSpliceNode) String() string {
-	return fmt.Sprintf("reader-cond-splice(length=%d)", len(n.Nodes))
+	return fmt.Sprintf("reader-cond-splice(length=%d)", countSemantic(n.Nodes))
 }
 func (n *ReaderCondSpliceNode) Parent() Node     { return n.parent }
 func (n *ReaderCondSpliceNode) setParent(p Node) { n.parent = p }
-- 
2.43.0


From 128efd13f899d611ac62c2545b3b7caffc25decf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 23/58] fix: don't let a realigned docstring escape its closing
 quote

---
 format/docstring.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/format/docstring.go b/format/docstring.go
index 258479a..a2916c2 100644
--- a/format/docstring.go
+++ b/format/docstring.go
@@ -2,6 +2,8 @@ package format
 
 import (
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/cespare/goclj"
 	"github.com/cespare/goclj/parse"
@@ -58,7 +60,7 @@ func (p *Printer) alignDocstring(docstring string, w int) string {
 		if n > w {
 			prefix += strings.Repeat(" ", n-w)
 		}
-		line = strings.TrimSpace(line)
+		line = trimBlanks(line)
 		if line != "" {
 			line = prefix + line
 		}
@@ -66,3 +68,16 @@ func (p *Printer) alignDocstring(docstring string, w int) string {
 	}
 	return strings.Join(aligned, "\n")
 }
+
+// trimBlanks is strings.TrimSpace except that it keeps an escaped blank at the
+// end. (If the final line of a docstring ended in a lone backslash, that would
+// escape the closing quote.)
+func trimBlanks(line string) string {
+	trimmed := strings.TrimSpace(line)
+	backslashes := len(trimmed) - len(strings.TrimRight(trimmed, `\`))
+	if rest := strings.TrimLeftFunc(line, unicode.IsSpace)[len(trimmed):]; backslashes%2 == 1 && rest != "" {
+		_, size := utf8.DecodeRuneInString(rest)
+		trimmed += rest[:size]
+	}
+	return trimmed
+}
-- 
2.43.0


From 4672dcc4d6df695310c9563c13f53f14722675f6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 24/58] fix: don't split an imported symbol at a dot at its
 start or end

---
 format/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/transform.go b/format/transform.go
index ecbd6d8..93ec303 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -335,7 +335,7 @@ func enforceImportStyle(nodes []parse.Node) {
 			nodes[i] = &parse.ListNode{Nodes: n.Nodes}
 		case *parse.SymbolNode:
 			j := strings.LastIndexByte(n.Val, '.')
-			if j < 0 {
+			if j <= 0 || j == len(n.Val)-1 {
 				break
 			}
 			nodes[i] = &parse.ListNode{
-- 
2.43.0


From 05a2b302e8a8b94f64accd0e1bc28e4c6e814246 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:00 +0000
Subject: [PATCH 25/58] fix: don't take a list for a comment form when its head
 is one

---
 parse/node.go  |  2 ++
 parse/parse.go | 25 ++++++++++++-------------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/parse/node.go b/parse/node.go
index 62a2973..d23b690 100644
--- a/parse/node.go
+++ b/parse/node.go
@@ -92,6 +92,8 @@ type ListNode struct {
 	*Pos
 	parent Node
 	Nodes  []Node
+
+	commentForm bool // parsed as (comment ...)
 }
 
 func (n *ListNode) String() string {
diff --git a/parse/parse.go b/parse/parse.go
index aa0419d..8da3ac1 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -285,15 +285,19 @@ func (t *Tree) parseCharLiteral(tok token) *CharacterNode {
 
 func (t *Tree) parseList(start token) *ListNode {
 	var nodes []Node
+	var head Node // the first form, even if it isn't included
 	for {
 		switch tok := t.next(); tok.typ {
 		case tokRightParen:
-			return &ListNode{Pos: start.pos, Nodes: nodes}
+			return &ListNode{Pos: start.pos, Nodes: nodes, commentForm: isCommentSymbol(head)}
 		case tokEOF:
 			t.unexpectedEOF(tok)
 		}
 		t.backup()
 		node := t.parseNext()
+		if head == nil && isForm(node) {
+			head = node
+		}
 		if t.includeNode(node) {
 			nodes = append(nodes, node)
 		}
@@ -473,6 +477,11 @@ func isForm(n Node) bool {
 	return isSemantic(n)
 }
 
+func isCommentSymbol(n Node) bool {
+	sym, ok := n.(*SymbolNode)
+	return ok && sym.Val == "comment"
+}
+
 // isCompleteForm reports whether n isn't just metadata or a tag
 // (possibly quoted) which applies to the form that follows.
 func isCompleteForm(n Node) bool {
@@ -536,18 +545,8 @@ func (t *Tree) parseVarQuote(start token) *VarQuoteNode {
 }
 
 func (t *Tree) includeNode(node Node) bool {
-	if list, ok := node.(*ListNode); ok {
-		children := list.Children()
-		for len(children) > 0 && !isForm(children[0]) {
-			children = children[1:]
-		}
-		if len(children) > 0 {
-			if sym, ok := children[0].(*SymbolNode); ok {
-				if sym.Val == "comment" && t.ignoreCommentForm {
-					return false
-				}
-			}
-		}
+	if list, ok := node.(*ListNode); ok && list.commentForm && t.ignoreCommentForm {
+		return false
 	}
 	if _, ok := node.(*ReaderDiscardNode); ok && t.ignoreReaderDiscard {
 		return false
-- 
2.43.0


From e7bfdd990359669e1acb2655b7ec4b3c124ba3ab Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:22 +0000
Subject: [PATCH 26/58] fix: track the column after a list that starts with a
 newline

In a form that is forced to list-body style (a function in letfn or a
method in deftype) whose first element is on a new line, everything
nested in that element was indented one column too little.
---
 format/format.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/format.go b/format/format.go
index 9bdb570..62d8878 100644
--- a/format/format.go
+++ b/format/format.go
@@ -722,6 +722,7 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 		}
 		if needIndent {
 			p.writeString(strings.Repeat(string(p.IndentChar), w))
+			w2 = w
 		}
 		if needSpace {
 			w2 += p.writeByte(' ')
-- 
2.43.0


From 26b80e932a6b41e4567753c51658491c2ad23057 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:38 +0000
Subject: [PATCH 27/58] fix: align by characters, not bytes

After a token with non-ASCII characters, everything aligned with what
follows it on the line was indented too far.
---
 format/format.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/format/format.go b/format/format.go
index 62d8878..ada2e05 100644
--- a/format/format.go
+++ b/format/format.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/cespare/goclj"
 	"github.com/cespare/goclj/parse"
@@ -774,12 +775,12 @@ type bufWriter struct {
 
 type bufErr struct{ error }
 
+// writeString writes s and returns its width, in characters.
 func (bw *bufWriter) writeString(s string) int {
-	n, err := bw.bw.WriteString(s)
-	if err != nil {
+	if _, err := bw.bw.WriteString(s); err != nil {
 		panic(bufErr{err})
 	}
-	return n
+	return utf8.RuneCountInString(s)
 }
 func (bw *bufWriter) writeByte(b byte) int {
 	if err := bw.bw.WriteByte(b); err != nil {
-- 
2.43.0


From e2552d5296f473a0a1c48df4ce650304ad08f634 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 28/58] fix: align what follows a multi-line string with where
 it is

The column after a string or regex with line breaks was taken to be the
column it would have on a single line.
---
 format/format.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/format/format.go b/format/format.go
index ada2e05..988f9fc 100644
--- a/format/format.go
+++ b/format/format.go
@@ -207,7 +207,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		w += p.writeByte('\'')
 		return p.printNode(node.Node, w)
 	case *parse.RegexNode:
-		return w + p.writeString(`#"`+node.Val+`"`)
+		return p.writeMultiline(`#"`+node.Val+`"`, w)
 	case *parse.SetNode:
 		w += p.writeString("#{")
 		w = p.printSequence(node.Nodes, w, IndentNormal)
@@ -218,7 +218,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 			val = p.alignDocstring(val, w)
 			delete(p.docstrings, node)
 		}
-		return w + p.writeString(`"`+val+`"`)
+		return p.writeMultiline(`"`+val+`"`, w)
 	case *parse.SymbolNode:
 		return w + p.writeString(node.Val)
 	case *parse.SyntaxQuoteNode:
@@ -782,6 +782,16 @@ func (bw *bufWriter) writeString(s string) int {
 	}
 	return utf8.RuneCountInString(s)
 }
+// writeMultiline writes s, which starts at column w and may contain line
+// breaks, and returns the column after it.
+func (bw *bufWriter) writeMultiline(s string, w int) int {
+	n := bw.writeString(s)
+	if i := strings.LastIndexByte(s, '\n'); i >= 0 {
+		return utf8.RuneCountInString(s[i+1:])
+	}
+	return w + n
+}
+
 func (bw *bufWriter) writeByte(b byte) int {
 	if err := bw.bw.WriteByte(b); err != nil {
 		panic(bufErr{err})
-- 
2.43.0


From 7e5aa8e03400fbaddcfb178d1f98da605a498b0a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 29/58] fix: indent the bindings of let-like function literals

#(let [x
        y] ...) and other special forms were indented without their
special rules for bindings, functions and methods when written as
function literals.
---
 format/format.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/format/format.go b/format/format.go
index 988f9fc..0e8e6b7 100644
--- a/format/format.go
+++ b/format/format.go
@@ -152,6 +152,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		w += p.writeByte('@')
 		return p.printNode(node.Node, w)
 	case *parse.FnLiteralNode:
+		p.applySpecialIndentRules(node.Nodes)
 		w += p.writeString("#(")
 		w = p.printSequence(node.Nodes, w, p.chooseIndent(node.Nodes))
 		return w + p.writeString(")")
@@ -172,7 +173,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 	case *parse.KeywordNode:
 		return w + p.writeString(node.Val)
 	case *parse.ListNode:
-		p.applySpecialIndentRules(node)
+		p.applySpecialIndentRules(node.Nodes)
 		var style IndentStyle
 		var ok bool
 		if style, ok = p.specialIndent[node]; ok {
@@ -261,24 +262,24 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 // TODO: Create a simple rules interface or something to easily specify the
 // special rules below.
 
-func (p *Printer) applySpecialIndentRules(node *parse.ListNode) {
-	if len(node.Nodes) == 0 {
+func (p *Printer) applySpecialIndentRules(nodes []parse.Node) {
+	if len(nodes) == 0 {
 		return
 	}
-	s, ok := node.Nodes[0].(*parse.SymbolNode)
+	s, ok := nodes[0].(*parse.SymbolNode)
 	if !ok {
 		return
 	}
 	if style, ok := p.indentStyleForSymbol(s.Val); ok {
 		switch style {
 		case IndentLet:
-			p.applySpecialLet(node.Nodes)
+			p.applySpecialLet(nodes)
 		case IndentLetfn:
-			p.applySpecialLetfn(node.Nodes)
+			p.applySpecialLetfn(nodes)
 		case IndentFor:
-			p.applySpecialFor(node.Nodes)
+			p.applySpecialFor(nodes)
 		case IndentDeftype:
-			p.applySpecialDeftype(node.Nodes)
+			p.applySpecialDeftype(nodes)
 		}
 	}
 }
-- 
2.43.0


From d6ed9d145b683bd061c8ef3d7ec624f1f39f1823 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 30/58] fix: consolidate blank lines at the start of a file,
 too

Two blank lines were left at the start of a file instead of one.
---
 format/transform.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/format/transform.go b/format/transform.go
index 93ec303..74eac88 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -163,7 +163,8 @@ func applyTransforms(t *parse.Tree, transforms map[Transform]bool) {
 		}
 	}
 	if transforms[TransformRemoveExtraBlankLines] {
-		t.Roots = removeExtraBlankLines(t.Roots)
+		// A newline at the start already makes a blank line.
+		t.Roots = removeExtraBlankLines(t.Roots, 1)
 	}
 }
 
@@ -502,7 +503,7 @@ func removeExtraBlankLinesRec(n parse.Node) {
 		return
 	}
 	if len(nodes) > 2 {
-		nodes = removeExtraBlankLines(nodes)
+		nodes = removeExtraBlankLines(nodes, 0)
 		n.SetChildren(nodes)
 	}
 	for _, node := range nodes {
@@ -510,9 +511,8 @@ func removeExtraBlankLinesRec(n parse.Node) {
 	}
 }
 
-func removeExtraBlankLines(nodes []parse.Node) []parse.Node {
+func removeExtraBlankLines(nodes []parse.Node, newlines int) []parse.Node {
 	newNodes := make([]parse.Node, 0, len(nodes))
-	newlines := 0
 	for _, node := range nodes {
 		if goclj.Newline(node) {
 			newlines++
-- 
2.43.0


From 468f28077261c45408accf433c424a9aaafc3f83 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 31/58] fix: find aliases and refers in requires with any other
 options

Overrides for qualified names weren't applied through the aliases of
requires such as [foo :as f :refer :all] or
[foo :as f :include-macros true].
---
 format/require.go | 60 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/format/require.go b/format/require.go
index 1911fe4..6d44400 100644
--- a/format/require.go
+++ b/format/require.go
@@ -16,25 +16,52 @@ func (p *Printer) markRequires(n parse.Node) {
 			continue
 		}
 		for _, n := range n.Children()[1:] {
-			r := parseRequire(n)
-			if r == nil {
-				continue
+			switch n.(type) {
+			case *parse.ListNode, *parse.VectorNode:
+				p.markRequire(n.Children())
 			}
-			for as := range r.as {
-				p.requires[as] = r.name
+		}
+	}
+}
+
+// markRequire notes the alias and the referred names of a single require.
+// It doesn't matter what other options there are.
+func (p *Printer) markRequire(nodes []parse.Node) {
+	semNodes := semanticNodes(nodes)
+	if len(semNodes)%2 != 1 || !goclj.Symbol(semNodes[0]) {
+		return
+	}
+	name := semNodes[0].(*parse.SymbolNode).Val
+	alias := ""
+	for i := 1; i < len(semNodes); i += 2 {
+		k, v := semNodes[i], semNodes[i+1]
+		switch {
+		case isKeywordNode(k, ":as"):
+			if v, ok := v.(*parse.SymbolNode); ok {
+				alias = v.Val // the last one takes effect
 			}
-			for _, ref := range []*referList{&r.refer, &r.referMacros} {
-				for _, n := range ref.origRefer {
-					if n, ok := n.(*parse.SymbolNode); ok {
-						p.refers[n.Val] = r.name
-					}
-				}
-				for ref := range ref.refer {
-					p.refers[ref] = r.name
+		case isKeywordNode(k, ":refer"), isKeywordNode(k, ":refer-macros"):
+			for _, n := range v.Children() {
+				if n, ok := n.(*parse.SymbolNode); ok {
+					p.refers[n.Val] = name
 				}
 			}
 		}
 	}
+	if alias != "" {
+		p.requires[alias] = name
+	}
+}
+
+// semanticNodes returns those nodes which are semantic.
+func semanticNodes(nodes []parse.Node) []parse.Node {
+	semNodes := make([]parse.Node, 0, len(nodes))
+	for _, n := range nodes {
+		if goclj.Semantic(n) {
+			semNodes = append(semNodes, n)
+		}
+	}
+	return semNodes
 }
 
 // referList represents a list of symbols following either a :refer or
@@ -372,12 +399,7 @@ func parseRequire(n parse.Node) *require {
 }
 
 func parseRequireSeq(nodes []parse.Node) *require {
-	semNodes := make([]parse.Node, 0, len(nodes))
-	for _, n := range nodes {
-		if goclj.Semantic(n) {
-			semNodes = append(semNodes, n)
-		}
-	}
+	semNodes := semanticNodes(nodes)
 	if len(semNodes) == 0 || !goclj.Symbol(semNodes[0]) {
 		return nil
 	}
-- 
2.43.0


From 84c21814c915a157fbff78afd3839c1ba62b5700 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 32/58] fix: take only the first vector of a letfn for its
 bindings

A vector at the start of the body was indented as if the lists in it were
function definitions, too.
---
 format/format.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/format.go b/format/format.go
index 0e8e6b7..8abe402 100644
--- a/format/format.go
+++ b/format/format.go
@@ -344,6 +344,7 @@ func (p *Printer) applySpecialLetfn(nodes []parse.Node) {
 				p.specialIndent[fn] = IndentListBody
 			}
 		}
+		return
 	}
 }
 
-- 
2.43.0


From 10ba773cb02b72e80b736db728dcb0ddf5a43560 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 33/58] fix: don't take symbolic values for tags or var names

# ##Inf was read as a tag and printed as ###Inf.
---
 parse/parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parse/parse.go b/parse/parse.go
index 8da3ac1..e1817c8 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -370,6 +370,7 @@ func (t *Tree) parseTag(start token) *TagNode {
 	tok := t.next()
 	switch tok.typ {
 	case tokSymbol:
+		t.plainSymbol(tok)
 		return &TagNode{Pos: start.pos, Val: tok.val}
 	case tokEOF:
 		t.unexpectedEOF(tok)
@@ -379,6 +380,13 @@ func (t *Tree) parseTag(start token) *TagNode {
 	panic("not reached")
 }
 
+// plainSymbol refuses symbolic values such as ##Inf.
+func (t *Tree) plainSymbol(tok token) {
+	if strings.HasPrefix(tok.val, "#") {
+		t.unexpected(tok)
+	}
+}
+
 func (t *Tree) parseFnLiteral(start token) *FnLiteralNode {
 	if t.inLambda {
 		t.errorf(start.pos, "cannot nest fn literals")
@@ -535,6 +543,7 @@ func (t *Tree) parseSet(start token) *SetNode {
 func (t *Tree) parseVarQuote(start token) *VarQuoteNode {
 	switch tok := t.next(); tok.typ {
 	case tokSymbol:
+		t.plainSymbol(tok)
 		return &VarQuoteNode{Pos: start.pos, Val: tok.val}
 	case tokEOF:
 		t.unexpectedEOF(tok)
-- 
2.43.0


From 650507e9442eb30f3dc22521fcdf0d0c23e9257e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 34/58] fix: give ns clauses their style before looking for
 them

With enforce-ns-style, use-to-require and remove-unused-requires ignored
clauses such as (require ...) and [:require ...] on the first run but
rewrote them on the second.
---
 format/transform.go | 86 +++++++++++++++++++++++++++------------------
 1 file changed, 52 insertions(+), 34 deletions(-)

diff --git a/format/transform.go b/format/transform.go
index 74eac88..0dba843 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -131,6 +131,10 @@ func applyTransforms(t *parse.Tree, transforms map[Transform]bool) {
 	}
 	for _, root := range t.Roots {
 		if goclj.FnFormSymbol(root, "ns") {
+			if transforms[TransformEnforceNSStyle] {
+				// The other transforms look for this style.
+				enforceNSClauseStyle(root)
+			}
 			if transforms[TransformUseToRequire] {
 				useToRequire(root)
 			}
@@ -247,63 +251,77 @@ func removeUnusedRequires(ns parse.Node, syms *symbolCache) {
 	ns.SetChildren(nodes)
 }
 
-func enforceNSStyle(ns parse.Node) {
+// nsClause returns the name of a clause of an ns form if n is one that is
+// subject to style rules, whether it is given as a keyword or a symbol.
+func nsClause(n parse.Node) (name string, multipleArgs, ok bool) {
+	switch n.(type) {
+	case *parse.ListNode, *parse.VectorNode:
+	default:
+		return "", false, false
+	}
+	children := n.Children()
+	if len(children) == 0 {
+		return "", false, false
+	}
+	switch c := children[0].(type) {
+	case *parse.KeywordNode:
+		name = c.Val[1:]
+	case *parse.SymbolNode:
+		name = c.Val
+	}
+	switch name {
+	case "refer-clojure":
+		return name, false, true
+	case "require", "require-macros", "use", "import", "load", "gen-class":
+		return name, true, true
+	}
+	return "", false, false
+}
+
+// enforceNSClauseStyle makes clauses lists that start with a keyword.
+func enforceNSClauseStyle(ns parse.Node) {
 	children := ns.Children()
 	for i := 1; i < len(children); i++ {
 		n := children[i]
-		var isVec bool
-		switch n.(type) {
-		case *parse.ListNode:
-		case *parse.VectorNode:
-			isVec = true
-		default:
+		name, _, ok := nsClause(n)
+		if !ok {
 			continue
 		}
 		clauseChildren := n.Children()
-		if len(clauseChildren) == 0 {
-			continue
+		if goclj.Symbol(clauseChildren[0]) {
+			clauseChildren[0] = &parse.KeywordNode{Val: ":" + name}
+			n.SetChildren(clauseChildren)
 		}
-		var clause string
-		var isSym bool
-		switch c := clauseChildren[0].(type) {
-		case *parse.KeywordNode:
-			clause = c.Val[1:]
-		case *parse.SymbolNode:
-			clause = c.Val
-			isSym = true
-		default:
-			continue
+		if goclj.Vector(n) {
+			children[i] = &parse.ListNode{Nodes: clauseChildren}
 		}
-		multipleArgs := false
-		switch clause {
-		case "refer-clojure":
-		case "require", "require-macros", "use", "import", "load", "gen-class":
-			multipleArgs = true
-		default:
+	}
+	ns.SetChildren(children)
+}
+
+func enforceNSStyle(ns parse.Node) {
+	children := ns.Children()
+	for i := 1; i < len(children); i++ {
+		n := children[i]
+		name, multipleArgs, ok := nsClause(n)
+		if !ok {
 			continue
 		}
-		if isSym {
-			clauseChildren[0] = &parse.KeywordNode{Val: ":" + clause}
-		}
+		clauseChildren := n.Children()
 		if multipleArgs && len(clauseChildren) >= 2 && goclj.Semantic(clauseChildren[1]) {
 			clauseChildren = append(
 				[]parse.Node{clauseChildren[0], newline()},
 				clauseChildren[1:]...,
 			)
 		}
-		switch clause {
+		switch name {
 		case "require", "require-macros":
 			enforceRequireStyle(clauseChildren)
 		case "import":
 			enforceImportStyle(clauseChildren)
 		}
 		n.SetChildren(clauseChildren)
-		if isVec {
-			n = &parse.ListNode{Nodes: n.Children()}
-		}
-		children[i] = n
 	}
-	ns.SetChildren(children)
 }
 
 func enforceRequireStyle(nodes []parse.Node) {
-- 
2.43.0


From ea41377d602369cd6564bc132690286e1eb4ff7f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 35/58] fix: don't split an imported symbol into parts that
 aren't symbols

java.util.'Date became (java.util 'Date), for example.
---
 format/transform.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/format/transform.go b/format/transform.go
index 0dba843..a911ba1 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -3,6 +3,8 @@ package format
 import (
 	"sort"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/cespare/goclj"
 	"github.com/cespare/goclj/parse"
@@ -354,7 +356,7 @@ func enforceImportStyle(nodes []parse.Node) {
 			nodes[i] = &parse.ListNode{Nodes: n.Nodes}
 		case *parse.SymbolNode:
 			j := strings.LastIndexByte(n.Val, '.')
-			if j <= 0 || j == len(n.Val)-1 {
+			if j < 0 || !isName(n.Val[:j]) || !isName(n.Val[j+1:]) {
 				break
 			}
 			nodes[i] = &parse.ListNode{
@@ -367,6 +369,17 @@ func enforceImportStyle(nodes []parse.Node) {
 	}
 }
 
+// isName returns whether s, a part of a symbol, is a symbol by itself. (It could
+// also be empty, a number, nil, quoted, and so on.)
+func isName(s string) bool {
+	switch s {
+	case "nil", "true", "false":
+		return false
+	}
+	r, _ := utf8.DecodeRuneInString(s)
+	return unicode.IsLetter(r) || r == '_' || r == '$'
+}
+
 func sortNS(ns parse.Node) {
 	for _, n := range ns.Children()[1:] {
 		if goclj.FnFormKeyword(n, ":require", ":require-macros", ":import") {
-- 
2.43.0


From 158e8203a234729d68bbd5e9087a29e2924ee740 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 36/58] fix: recognize :refer :all in requires

use-to-require turned (:use e) into [e :refer :all] but didn't recognize
that in turn: it put such a require after all others the next time, and
didn't merge other requires of the same namespace with it.
---
 format/require.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/require.go b/format/require.go
index 6d44400..8407b32 100644
--- a/format/require.go
+++ b/format/require.go
@@ -428,6 +428,10 @@ func parseRequireSeq(nodes []parse.Node) *require {
 			}
 			as = vs.Val
 		case ":refer", ":refer-macros":
+			if kw.Val == ":refer" && isKeywordNode(v, ":all") {
+				r.referAll = true
+				continue
+			}
 			if kw.Val == ":refer" {
 				refer = v.Children()
 			} else {
-- 
2.43.0


From c69d43b83bc7e5a3539da03ad4cd26f0d39922b6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 37/58] fix: keep :refer-macros of a namespace that is also
 used

---
 format/require.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/format/require.go b/format/require.go
index 8407b32..471c4a9 100644
--- a/format/require.go
+++ b/format/require.go
@@ -324,13 +324,11 @@ func (rl *requireList) render() []parse.Node {
 			parts = append(parts,
 				&parse.KeywordNode{Val: ":refer"},
 				&parse.KeywordNode{Val: ":all"})
-		} else {
-			if n := r.refer.render(); n != nil {
-				parts = append(parts, &parse.KeywordNode{Val: ":refer"}, n)
-			}
-			if n := r.referMacros.render(); n != nil {
-				parts = append(parts, &parse.KeywordNode{Val: ":refer-macros"}, n)
-			}
+		} else if n := r.refer.render(); n != nil {
+			parts = append(parts, &parse.KeywordNode{Val: ":refer"}, n)
+		}
+		if n := r.referMacros.render(); n != nil {
+			parts = append(parts, &parse.KeywordNode{Val: ":refer-macros"}, n)
 		}
 		nodes = append(nodes, &parse.VectorNode{Nodes: parts})
 		if r.comments.commentBeside != nil {
-- 
2.43.0


From 8ebe2d8c5e93d270199b5b84ee2c21dd3ba4f278 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 38/58] fix: keep metadata and tags with their require when
 rewriting

use-to-require and remove-unused-requires moved metadata, tags and stacked
discards in front of a :require or :use item to the end of the clause.
---
 format/require.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/format/require.go b/format/require.go
index 471c4a9..e1f38b4 100644
--- a/format/require.go
+++ b/format/require.go
@@ -199,6 +199,7 @@ func (nc *nodeComments) attachCommentBeside(c *parse.CommentNode) {
 }
 
 type nodeWithComments struct {
+	prefix   []parse.Node // metadata and such that belong to n
 	n        parse.Node
 	comments nodeComments
 }
@@ -246,6 +247,8 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 		prevComments      *nodeComments
 		lineComments      []*parse.CommentNode
 		afterSemanticNode = false
+		prefix            []parse.Node // metadata and such for the next item
+		missing           = 0          // the number of forms prefix lacks
 	)
 	if use {
 		parseFn = parseUse
@@ -266,11 +269,21 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 		case *parse.NewlineNode:
 			afterSemanticNode = false
 		default:
-			if r := parseFn(node); r != nil {
+			if missing > 0 && !isDiscard(node) {
+				missing--
+			}
+			missing += missingForms(node)
+			if missing > 0 {
+				prefix = append(prefix, node)
+				afterSemanticNode = false
+				continue
+			}
+			if r := parseFn(node); r != nil && prefix == nil {
 				r2 := rl.merge(r)
 				prevComments = &r2.comments
 			} else {
-				nc := &nodeWithComments{n: node}
+				nc := &nodeWithComments{prefix: prefix, n: node}
+				prefix = nil
 				*extra = append(*extra, nc)
 				prevComments = &nc.comments
 			}
@@ -279,6 +292,9 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 			lineComments = nil
 		}
 	}
+	if i := len(prefix) - 1; i >= 0 { // the last form is missing
+		*extra = append(*extra, &nodeWithComments{prefix: prefix[:i], n: prefix[i]})
+	}
 	rl.commentsBelow = append(rl.commentsBelow, lineComments...)
 }
 
@@ -340,6 +356,7 @@ func (rl *requireList) render() []parse.Node {
 		for _, c := range r.comments.commentsAbove {
 			nodes = append(nodes, c, newline())
 		}
+		nodes = append(nodes, r.prefix...)
 		nodes = append(nodes, r.n)
 		if r.comments.commentBeside != nil {
 			nodes = append(nodes, r.comments.commentBeside)
@@ -362,6 +379,7 @@ func (rl *requireList) render() []parse.Node {
 			for _, c := range n.comments.commentsAbove {
 				extra = append(extra, c, newline())
 			}
+			extra = append(extra, n.prefix...)
 			extra = append(extra, n.n)
 			if n.comments.commentBeside != nil {
 				extra = append(extra, n.comments.commentBeside)
-- 
2.43.0


From 7ab61f42c24979d0f9990aab3262074bd11b17c9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 39/58] fix: don't lose comments and metadata inside rewritten
 requires

Requires with comments or metadata inside (other than comments in a list
of referred names) are now carried over as they are, and line breaks in a
:use item don't matter any more, as in a :require item.
---
 format/require.go | 54 +++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/format/require.go b/format/require.go
index e1f38b4..7a785ad 100644
--- a/format/require.go
+++ b/format/require.go
@@ -403,6 +403,22 @@ func sortStringSet(set map[string]struct{}) []string {
 	return ss
 }
 
+// plainNodes returns nodes without newlines. It reports whether there is
+// nothing else, such as a comment or metadata, that would get lost if nodes
+// were rewritten.
+func plainNodes(nodes []parse.Node) (plain []parse.Node, ok bool) {
+	for _, n := range nodes {
+		if goclj.Newline(n) {
+			continue
+		}
+		if !goclj.Semantic(n) {
+			return nil, false
+		}
+		plain = append(plain, n)
+	}
+	return plain, true
+}
+
 func parseRequire(n parse.Node) *require {
 	switch n := n.(type) {
 	case *parse.SymbolNode:
@@ -415,8 +431,8 @@ func parseRequire(n parse.Node) *require {
 }
 
 func parseRequireSeq(nodes []parse.Node) *require {
-	semNodes := semanticNodes(nodes)
-	if len(semNodes) == 0 || !goclj.Symbol(semNodes[0]) {
+	semNodes, ok := plainNodes(nodes)
+	if !ok || len(semNodes) == 0 || !goclj.Symbol(semNodes[0]) {
 		return nil
 	}
 	r := newRequire(semNodes[0].(*parse.SymbolNode).Val)
@@ -455,13 +471,8 @@ func parseRequireSeq(nodes []parse.Node) *require {
 			}
 			switch v.(type) {
 			case *parse.ListNode, *parse.VectorNode:
-				for _, n := range v.Children() {
-					if !goclj.Semantic(n) {
-						continue
-					}
-					if _, ok := n.(*parse.SymbolNode); !ok {
-						return nil
-					}
+				if !isReferList(v.Children()) {
+					return nil
 				}
 			default:
 				return nil
@@ -491,8 +502,21 @@ func parseUse(n parse.Node) *require {
 	}
 }
 
+// isReferList returns whether there are only symbols and comments in nodes.
+func isReferList(nodes []parse.Node) bool {
+	for _, n := range nodes {
+		switch n.(type) {
+		case *parse.SymbolNode, *parse.CommentNode, *parse.NewlineNode:
+		default:
+			return false
+		}
+	}
+	return true
+}
+
 func parseUseSeq(nodes []parse.Node) *require {
-	if len(nodes) == 0 || !goclj.Symbol(nodes[0]) {
+	nodes, ok := plainNodes(nodes)
+	if !ok || len(nodes) == 0 || !goclj.Symbol(nodes[0]) {
 		return nil
 	}
 	r := newRequire(nodes[0].(*parse.SymbolNode).Val)
@@ -518,14 +542,8 @@ func parseUseSeq(nodes []parse.Node) *require {
 				return nil
 			}
 			r.refer.origRefer = nodes[2].Children()
-			for _, n := range r.refer.origRefer {
-				switch n.(type) {
-				case *parse.SymbolNode,
-					*parse.CommentNode,
-					*parse.NewlineNode:
-				default:
-					return nil
-				}
+			if !isReferList(r.refer.origRefer) {
+				return nil
 			}
 		default:
 			return nil
-- 
2.43.0


From a99fbbc5e1c0b48ba54f762c915a927087ed44da Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 40/58] fix: keep the comments of refer lists that are merged
 or rewritten

They are now put above the require.
---
 format/require.go | 47 +++++++++++++++++++++++++++++++++--------------
 format/unused.go  |  4 ++--
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/format/require.go b/format/require.go
index 7a785ad..0c379aa 100644
--- a/format/require.go
+++ b/format/require.go
@@ -74,32 +74,39 @@ type referList struct {
 	refer     map[string]struct{}
 }
 
-func (rl *referList) merge(rl1 *referList) {
+// merge adds the symbols of rl1 to rl. It returns the comments for which there
+// is no place in the merged list.
+func (rl *referList) merge(rl1 *referList) []*parse.CommentNode {
 	if rl1 == nil {
-		return
+		return nil
 	}
 	if rl1.refer != nil {
 		panic("merge arg has non-nil refer")
 	}
 	if len(rl1.origRefer) == 0 {
-		return
+		return nil
 	}
 	// If the current list has *no* refers, just copy the origRefer
 	// list from the other.
 	if rl.origRefer == nil && rl.refer == nil {
 		rl.origRefer = rl1.origRefer
-		return
+		return nil
 	}
 	// Otherwise, move everything into rl.refer (if not already moved by
 	// a previous merge) and copy each symbol from the other list.
+	var comments []*parse.CommentNode
 	if rl.origRefer != nil {
-		rl.extractOrigRefer()
+		comments = rl.extractOrigRefer()
 	}
 	for _, n := range rl1.origRefer {
-		if n, ok := n.(*parse.SymbolNode); ok {
+		switch n := n.(type) {
+		case *parse.SymbolNode:
 			rl.refer[n.Val] = struct{}{}
+		case *parse.CommentNode:
+			comments = append(comments, n)
 		}
 	}
+	return comments
 }
 
 // render returns a parse.VectorNode for all symbols in this referList,
@@ -119,20 +126,27 @@ func (rl *referList) render() *parse.VectorNode {
 }
 
 // extractOrigRefer moves all symbols in the origRefer slice
-// into rl.refer map.
-func (rl *referList) extractOrigRefer() {
+// into rl.refer map. It returns the comments that were between them.
+func (rl *referList) extractOrigRefer() []*parse.CommentNode {
+	var comments []*parse.CommentNode
 	rl.refer = make(map[string]struct{})
 	for _, n := range rl.origRefer {
-		if n, ok := n.(*parse.SymbolNode); ok {
+		switch n := n.(type) {
+		case *parse.SymbolNode:
 			rl.refer[n.Val] = struct{}{}
+		case *parse.CommentNode:
+			comments = append(comments, n)
 		}
 	}
 	rl.origRefer = nil
+	return comments
 }
 
 // removeUnused removes all symbols from this referList that aren't
-// present in sc.
-func (rl *referList) removeUnused(sc *symbolCache) {
+// present in sc. It returns the comments that were between the symbols if the
+// list had to be rewritten.
+func (rl *referList) removeUnused(sc *symbolCache) []*parse.CommentNode {
+	var comments []*parse.CommentNode
 	if rl.origRefer != nil {
 		// If origRefer doesn't have any unused elements, leave it
 		// alone. Otherwise, rewrite it as a refer and handle below.
@@ -142,7 +156,7 @@ func (rl *referList) removeUnused(sc *symbolCache) {
 				continue
 			}
 			if !sc.usesSym(n.Val) {
-				rl.extractOrigRefer()
+				comments = rl.extractOrigRefer()
 				break
 			}
 		}
@@ -152,6 +166,7 @@ func (rl *referList) removeUnused(sc *symbolCache) {
 			delete(rl.refer, ref)
 		}
 	}
+	return comments
 }
 
 type require struct {
@@ -235,8 +250,12 @@ func (rl *requireList) merge(r *require) *require {
 		}
 	}
 	r2.referAll = r.referAll || r2.referAll
-	r2.refer.merge(&r.refer)
-	r2.referMacros.merge(&r.referMacros)
+	r2.comments.attachCommentsAbove(r2.refer.merge(&r.refer))
+	r2.comments.attachCommentsAbove(r2.referMacros.merge(&r.referMacros))
+	if r2.referAll && r2.refer.origRefer != nil {
+		// The list isn't going to be rendered.
+		r2.comments.attachCommentsAbove(r2.refer.extractOrigRefer())
+	}
 	return r2
 }
 
diff --git a/format/unused.go b/format/unused.go
index 7e0512d..b354549 100644
--- a/format/unused.go
+++ b/format/unused.go
@@ -115,8 +115,8 @@ func (sc *symbolCache) unused(r *require) bool {
 			delete(r.as, as)
 		}
 	}
-	r.refer.removeUnused(sc)
-	r.referMacros.removeUnused(sc)
+	r.comments.attachCommentsAbove(r.refer.removeUnused(sc))
+	r.comments.attachCommentsAbove(r.referMacros.removeUnused(sc))
 	return !sc.usesNamespace(r.name) &&
 		!sc.usesRequireAsImport(r.name) &&
 		len(r.as) == 0 &&
-- 
2.43.0


From 652c249d33b1706a2b5f1a875fa875c128db262b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:41 +0000
Subject: [PATCH 41/58] fix: keep comments where they are when removing unused
 requires

Comments on or above a bare require such as [foo] were attached to the
next require, and metadata before it to nothing.
---
 format/require.go   | 11 ++++++++++-
 format/transform.go | 18 ++----------------
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/format/require.go b/format/require.go
index 0c379aa..e3817b8 100644
--- a/format/require.go
+++ b/format/require.go
@@ -223,6 +223,8 @@ type requireList struct {
 	m map[string]*require
 	// macros is true if this represents a :require-macros list.
 	macros bool
+	// keepBare says to treat requires of the form [foo] as unrecognized.
+	keepBare bool
 
 	// unrecognized semantic nodes
 	extraRequire []*nodeWithComments
@@ -297,7 +299,8 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 				afterSemanticNode = false
 				continue
 			}
-			if r := parseFn(node); r != nil && prefix == nil {
+			keep := prefix != nil || rl.keepBare && isBareRequire(node)
+			if r := parseFn(node); r != nil && !keep {
 				r2 := rl.merge(r)
 				prevComments = &r2.comments
 			} else {
@@ -438,6 +441,12 @@ func plainNodes(nodes []parse.Node) (plain []parse.Node, ok bool) {
 	return plain, true
 }
 
+// isBareRequire returns whether n has the form [foo].
+func isBareRequire(n parse.Node) bool {
+	v, ok := n.(*parse.VectorNode)
+	return ok && len(v.Nodes) == 1
+}
+
 func parseRequire(n parse.Node) *require {
 	switch n := n.(type) {
 	case *parse.SymbolNode:
diff --git a/format/transform.go b/format/transform.go
index a911ba1..6e4d6ce 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -217,29 +217,15 @@ func removeUnusedRequires(ns parse.Node, syms *symbolCache) {
 		}
 		// As a special case, never remove requires of the form [foo]
 		// because they may be needed for their side-effects.
-		var keep []parse.Node
-		var requires []parse.Node
-		for i, child := range n.Children() {
-			if i == 0 {
-				requires = append(requires, child)
-				continue
-			}
-			if vec, ok := child.(*parse.VectorNode); ok && len(vec.Children()) == 1 {
-				keep = append(keep, child)
-			} else {
-				requires = append(requires, child)
-			}
-		}
-
 		rl := newRequireList()
-		rl.parseRequireUse(requires, false)
+		rl.keepBare = true
+		rl.parseRequireUse(n.Children(), false)
 		for name, r := range rl.m {
 			if syms.unused(r) {
 				delete(rl.m, name)
 			}
 		}
 		require := rl.render()[0].(*parse.ListNode)
-		require.Nodes = append(require.Nodes, keep...)
 		if len(require.Nodes) <= 2 {
 			// If all that's left is (:require), drop it.
 			// If there's a newline afterwards, drop that too.
-- 
2.43.0


From 463664cc969df875e16b9a964f7aa71f3d4bb8ba Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:28 +0000
Subject: [PATCH 42/58] fix: keep bare requires in order when removing unused
 requires

Moved to the end, a require that became bare when its unused alias was
removed kept its place the first time but not the next time.
---
 format/require.go   | 22 +++++++++++-----------
 format/transform.go |  3 ---
 format/unused.go    |  5 ++++-
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/format/require.go b/format/require.go
index e3817b8..f20d652 100644
--- a/format/require.go
+++ b/format/require.go
@@ -173,6 +173,7 @@ type require struct {
 	name     string
 	as       map[string]struct{}
 	referAll bool
+	bare     bool // it is (or one of those merged into it was) [foo]
 
 	refer       referList
 	referMacros referList
@@ -223,8 +224,6 @@ type requireList struct {
 	m map[string]*require
 	// macros is true if this represents a :require-macros list.
 	macros bool
-	// keepBare says to treat requires of the form [foo] as unrecognized.
-	keepBare bool
 
 	// unrecognized semantic nodes
 	extraRequire []*nodeWithComments
@@ -252,6 +251,7 @@ func (rl *requireList) merge(r *require) *require {
 		}
 	}
 	r2.referAll = r.referAll || r2.referAll
+	r2.bare = r.bare || r2.bare
 	r2.comments.attachCommentsAbove(r2.refer.merge(&r.refer))
 	r2.comments.attachCommentsAbove(r2.referMacros.merge(&r.referMacros))
 	if r2.referAll && r2.refer.origRefer != nil {
@@ -299,8 +299,7 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 				afterSemanticNode = false
 				continue
 			}
-			keep := prefix != nil || rl.keepBare && isBareRequire(node)
-			if r := parseFn(node); r != nil && !keep {
+			if r := parseFn(node); r != nil && prefix == nil {
 				r2 := rl.merge(r)
 				prevComments = &r2.comments
 			} else {
@@ -441,17 +440,17 @@ func plainNodes(nodes []parse.Node) (plain []parse.Node, ok bool) {
 	return plain, true
 }
 
-// isBareRequire returns whether n has the form [foo].
-func isBareRequire(n parse.Node) bool {
-	v, ok := n.(*parse.VectorNode)
-	return ok && len(v.Nodes) == 1
-}
-
 func parseRequire(n parse.Node) *require {
 	switch n := n.(type) {
 	case *parse.SymbolNode:
 		return newRequire(n.Val)
-	case *parse.ListNode, *parse.VectorNode:
+	case *parse.ListNode:
+		r := parseRequireSeq(n.Children())
+		if r != nil {
+			r.bare = false
+		}
+		return r
+	case *parse.VectorNode:
 		return parseRequireSeq(n.Children())
 	default:
 		return nil
@@ -512,6 +511,7 @@ func parseRequireSeq(nodes []parse.Node) *require {
 	if as != "" {
 		r.as = map[string]struct{}{as: {}}
 	}
+	r.bare = numPairs == 0
 	r.refer.origRefer = refer
 	r.referMacros.origRefer = referMacros
 	return r
diff --git a/format/transform.go b/format/transform.go
index 6e4d6ce..b91324e 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -215,10 +215,7 @@ func removeUnusedRequires(ns parse.Node, syms *symbolCache) {
 			nodes = append(nodes, n)
 			continue
 		}
-		// As a special case, never remove requires of the form [foo]
-		// because they may be needed for their side-effects.
 		rl := newRequireList()
-		rl.keepBare = true
 		rl.parseRequireUse(n.Children(), false)
 		for name, r := range rl.m {
 			if syms.unused(r) {
diff --git a/format/unused.go b/format/unused.go
index b354549..a79eeb6 100644
--- a/format/unused.go
+++ b/format/unused.go
@@ -117,7 +117,10 @@ func (sc *symbolCache) unused(r *require) bool {
 	}
 	r.comments.attachCommentsAbove(r.refer.removeUnused(sc))
 	r.comments.attachCommentsAbove(r.referMacros.removeUnused(sc))
-	return !sc.usesNamespace(r.name) &&
+	// As a special case, never remove requires of the form [foo]
+	// because they may be needed for their side-effects.
+	return !r.bare &&
+		!sc.usesNamespace(r.name) &&
 		!sc.usesRequireAsImport(r.name) &&
 		len(r.as) == 0 &&
 		!r.referAll &&
-- 
2.43.0


From 0fd3fc90d42e010907af0257c5286e77188d443a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 43/58] fix: start an ns clause's first item on a new line if
 it has metadata, too

---
 format/transform.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/transform.go b/format/transform.go
index b91324e..d271d61 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -293,7 +293,8 @@ func enforceNSStyle(ns parse.Node) {
 			continue
 		}
 		clauseChildren := n.Children()
-		if multipleArgs && len(clauseChildren) >= 2 && goclj.Semantic(clauseChildren[1]) {
+		if multipleArgs && len(clauseChildren) >= 2 &&
+			!goclj.Newline(clauseChildren[1]) && !goclj.Comment(clauseChildren[1]) {
 			clauseChildren = append(
 				[]parse.Node{clauseChildren[0], newline()},
 				clauseChildren[1:]...,
-- 
2.43.0


From c2406f18f4aa0fab8504396819c2174760092b23 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:06 +0000
Subject: [PATCH 44/58] fix: don't count metadata and tags as arguments of
 thread-first macros

---
 format/threadfirst.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/format/threadfirst.go b/format/threadfirst.go
index 88b1884..6c8f84f 100644
--- a/format/threadfirst.go
+++ b/format/threadfirst.go
@@ -1,6 +1,9 @@
 package format
 
-import "github.com/cespare/goclj/parse"
+import (
+	"github.com/cespare/goclj"
+	"github.com/cespare/goclj/parse"
+)
 
 func (p *Printer) markThreadFirsts(n parse.Node) {
 	var nodes []parse.Node
@@ -29,10 +32,10 @@ func (p *Printer) markThreadFirstStyle(form parse.Node, style ThreadFirstStyle)
 	}
 	idxSemantic := 0
 	for _, node := range form.Children() {
-		switch n := node.(type) {
-		case *parse.CommentNode, *parse.NewlineNode:
+		if !goclj.Semantic(node) {
 			continue
-		case *parse.ListNode:
+		}
+		if n, ok := node.(*parse.ListNode); ok {
 			if idxSemantic >= begin {
 				switch style {
 				case ThreadFirstNormal:
-- 
2.43.0


From dad26f4b9efaa3580a7a66c4c17017b1878e29ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:22 +0000
Subject: [PATCH 45/58] fix: keep metadata and tags with the if arm that gets
 its own line

---
 format/transform.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/format/transform.go b/format/transform.go
index d271d61..4ee7426 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -586,6 +586,13 @@ func enforceConsistentIfNewlines(nodes []parse.Node) []parse.Node {
 	if arm1 == 0 { // only one arm
 		return nodes
 	}
+	// Metadata and tags stay with the arm they apply to.
+	for isPrefix(nodes[arm0-1]) {
+		arm0--
+	}
+	for isPrefix(nodes[arm1-1]) {
+		arm1--
+	}
 	if newlineBeforeArm0 && !newlineBeforeArm1 {
 		// (if x?
 		//   a b)
@@ -605,6 +612,14 @@ func enforceConsistentIfNewlines(nodes []parse.Node) []parse.Node {
 	return nodes
 }
 
+func isPrefix(n parse.Node) bool {
+	switch n.(type) {
+	case *parse.MetadataNode, *parse.TagNode:
+		return true
+	}
+	return false
+}
+
 // An importRequire is an import/require with associated comment nodes.
 type importRequire struct {
 	commentsAbove []*parse.CommentNode
-- 
2.43.0


From 5a42771d6f286d953e20da3aab4ac16f9e71864e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:28 +0000
Subject: [PATCH 46/58] fix: don't take discarded forms in the config file for
 configuration

---
 cljfmt/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cljfmt/config.go b/cljfmt/config.go
index e06298a..cbe7bb5 100644
--- a/cljfmt/config.go
+++ b/cljfmt/config.go
@@ -20,7 +20,7 @@ func (e unexpectedNodeError) Error() string {
 func (c *config) parseDotConfig(r io.Reader, name string) error {
 	// We don't ask the parser for non-semantic nodes, so we don't need to
 	// prune out comments.
-	tree, err := parse.Reader(r, name, 0)
+	tree, err := parse.Reader(r, name, parse.IgnoreReaderDiscard)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 8b15b480e13a7cf1971483e6bc0b61b6dbc209d8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 47/58] fix: don't stop at links to directories and named pipes
 in directory walks

---
 cljfmt/cljfmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index 254bbae..b7ce6ff 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -276,6 +276,10 @@ func (c *config) walkDir(path string) {
 			return nil
 		}
 		if _, ok := c.extensions[filepath.Ext(name)]; ok {
+			// It could also be (a link to) a directory or a named pipe.
+			if stat, err := os.Stat(path); err == nil && !stat.Mode().IsRegular() {
+				return nil
+			}
 			return c.processFile(path, nil)
 		}
 		return nil // not a Clojure file
-- 
2.43.0


From e59d8e4ae438ac1491768ab6dfccda3d5dfb0867 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 48/58] fix: keep comments in refer lists that a later option
 overrides

---
 format/require.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/format/require.go b/format/require.go
index f20d652..b281b9d 100644
--- a/format/require.go
+++ b/format/require.go
@@ -252,6 +252,7 @@ func (rl *requireList) merge(r *require) *require {
 	}
 	r2.referAll = r.referAll || r2.referAll
 	r2.bare = r.bare || r2.bare
+	r2.comments.attachCommentsAbove(r.comments.commentsAbove)
 	r2.comments.attachCommentsAbove(r2.refer.merge(&r.refer))
 	r2.comments.attachCommentsAbove(r2.referMacros.merge(&r.referMacros))
 	if r2.referAll && r2.refer.origRefer != nil {
@@ -440,6 +441,17 @@ func plainNodes(nodes []parse.Node) (plain []parse.Node, ok bool) {
 	return plain, true
 }
 
+// comments returns those nodes which are comments.
+func comments(nodes []parse.Node) []*parse.CommentNode {
+	var comments []*parse.CommentNode
+	for _, n := range nodes {
+		if n, ok := n.(*parse.CommentNode); ok {
+			comments = append(comments, n)
+		}
+	}
+	return comments
+}
+
 func parseRequire(n parse.Node) *require {
 	switch n := n.(type) {
 	case *parse.SymbolNode:
@@ -492,8 +504,10 @@ func parseRequireSeq(nodes []parse.Node) *require {
 				continue
 			}
 			if kw.Val == ":refer" {
+				r.comments.attachCommentsAbove(comments(refer))
 				refer = v.Children()
 			} else {
+				r.comments.attachCommentsAbove(comments(referMacros))
 				referMacros = v.Children()
 			}
 			switch v.(type) {
@@ -508,6 +522,11 @@ func parseRequireSeq(nodes []parse.Node) *require {
 			return nil
 		}
 	}
+	if r.referAll {
+		// The list isn't going to be rendered.
+		r.comments.attachCommentsAbove(comments(refer))
+		refer = nil
+	}
 	if as != "" {
 		r.as = map[string]struct{}{as: {}}
 	}
-- 
2.43.0


From ac97a60dcf43d4310316cae19a6354cce118fad8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 49/58] fix: reject surrogates in unicode character literals

---
 parse/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/parse.go b/parse/parse.go
index e1817c8..4561617 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -270,6 +270,9 @@ func (t *Tree) parseCharLiteral(tok token) *CharacterNode {
 				if len(val) != 5 || err != nil {
 					t.errorf(tok.pos, "invalid unicode literal")
 				}
+				if n >= 0xD800 && n <= 0xDFFF {
+					t.errorf(tok.pos, "invalid unicode literal (surrogate)")
+				}
 				r = rune(n)
 			default:
 				t.errorf(tok.pos, "invalid character literal")
-- 
2.43.0


From 88d5231691062494c8cf11f671b87d734b117ddb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 50/58] fix: find the namespace of the division symbol for
 indent overrides

---
 format/format.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/format/format.go b/format/format.go
index 8abe402..37ade50 100644
--- a/format/format.go
+++ b/format/format.go
@@ -383,7 +383,7 @@ func (p *Printer) chooseListIndent(name string) IndentStyle {
 }
 
 func (p *Printer) indentStyleForSymbol(name string) (IndentStyle, bool) {
-	if i := strings.LastIndex(name, "/"); i >= 0 {
+	if i := namespaceEnd(name); i >= 0 {
 		ns := name[:i]
 		unqualified := name[i+1:]
 		if req, ok := p.requires[ns]; ok {
@@ -410,12 +410,19 @@ func (p *Printer) indentStyleForSymbol(name string) (IndentStyle, bool) {
 }
 
 func symbolName(sym string) string {
-	if i := strings.LastIndex(sym, "/"); i >= 0 {
+	if i := namespaceEnd(sym); i >= 0 {
 		return sym[i+1:]
 	}
 	return sym
 }
 
+// namespaceEnd gives the index of the slash that separates the namespace of a
+// symbol from its name, or -1 if the symbol is unqualified. The name itself may
+// be a slash: / and clojure.core// are the division function.
+func namespaceEnd(sym string) int {
+	return strings.LastIndexByte(strings.TrimSuffix(sym, "/"), '/')
+}
+
 // A ThreadFirst style represents a variety of thread-first macro.
 type ThreadFirstStyle int
 
-- 
2.43.0


From aa52d05ea16efaed8ebb489fe4de4fae7306d472 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 51/58] fix: don't remove a referred name /

---
 format/unused.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/unused.go b/format/unused.go
index a79eeb6..7f55d57 100644
--- a/format/unused.go
+++ b/format/unused.go
@@ -44,7 +44,8 @@ func findSymbols(roots []parse.Node) *symbolCache {
 			}
 		}
 		if name != "" {
-			if i := strings.IndexRune(name, '/'); i < 0 {
+			// (The symbol / is a name like any other.)
+			if i := strings.IndexRune(name, '/'); i <= 0 {
 				syms.symbols[name] = struct{}{}
 			} else {
 				syms.namespaces[name[:i]] = struct{}{}
-- 
2.43.0


From c67efd266396a95f9b25241a289bb2ee6ff04a1a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 52/58] fix: walk directories that are given by a symbolic link

---
 cljfmt/cljfmt.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index b7ce6ff..6ca5847 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -284,7 +284,8 @@ func (c *config) walkDir(path string) {
 		}
 		return nil // not a Clojure file
 	}
-	if err := filepath.Walk(path, walk); err != nil {
+	// With the separator, path may also be a link to a directory.
+	if err := filepath.Walk(path+string(filepath.Separator), walk); err != nil {
 		log.Fatal(err)
 	}
 }
-- 
2.43.0


From f3562887db9de0eb17737431ed63a313dd6e0192 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 53/58] fix: keep requires that provide imports which aren't
 plain :import items

---
 format/unused.go | 46 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/format/unused.go b/format/unused.go
index 7f55d57..4d24125 100644
--- a/format/unused.go
+++ b/format/unused.go
@@ -57,13 +57,7 @@ func findSymbols(roots []parse.Node) *symbolCache {
 	}
 	for _, root := range roots {
 		if goclj.FnFormSymbol(root, "ns") {
-			for _, n := range root.Children()[1:] {
-				if goclj.FnFormKeyword(n, ":import") {
-					for _, n1 := range n.Children()[1:] {
-						syms.findImports(n1)
-					}
-				}
-			}
+			syms.findImportClauses(root.Children()[1:])
 		} else {
 			find(root)
 		}
@@ -76,6 +70,25 @@ func trimPrefix(s, prefix string) (string, bool) {
 	return result, result != s
 }
 
+func (sc *symbolCache) findImportClauses(nodes []parse.Node) {
+	for _, n := range nodes {
+		switch n := n.(type) {
+		case *parse.ReaderCondNode:
+			sc.findImportClauses(n.Nodes)
+		case *parse.ReaderCondSpliceNode:
+			for _, n := range n.Nodes {
+				sc.findImportClauses(n.Children())
+			}
+		default:
+			if name, _, ok := nsClause(n); ok && name == "import" {
+				for _, n := range n.Children()[1:] {
+					sc.findImports(n)
+				}
+			}
+		}
+	}
+}
+
 func (sc *symbolCache) findImports(n parse.Node) {
 	switch n := n.(type) {
 	case *parse.SymbolNode:
@@ -83,11 +96,24 @@ func (sc *symbolCache) findImports(n parse.Node) {
 			sc.imports[n.Val[:i]] = struct{}{}
 		}
 	case *parse.ListNode, *parse.VectorNode:
-		nodes := n.Children()
-		if len(nodes) > 0 {
-			if sym, ok := nodes[0].(*parse.SymbolNode); ok {
+		for _, n := range n.Children() {
+			if !goclj.Semantic(n) || isDiscard(n) {
+				continue
+			}
+			if sym, ok := n.(*parse.SymbolNode); ok {
 				sc.imports[sym.Val] = struct{}{}
 			}
+			break
+		}
+	case *parse.ReaderCondNode:
+		for _, n := range n.Nodes {
+			sc.findImports(n)
+		}
+	case *parse.ReaderCondSpliceNode:
+		for _, n := range n.Nodes {
+			for _, n := range n.Children() {
+				sc.findImports(n)
+			}
 		}
 	}
 }
-- 
2.43.0


From 35c0d8e72dbae6db110a9b49146b9c2cce1ded20 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 54/58] fix: treat a refer list of nothing but line breaks as
 empty

---
 format/require.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/format/require.go b/format/require.go
index b281b9d..2621ccb 100644
--- a/format/require.go
+++ b/format/require.go
@@ -505,10 +505,10 @@ func parseRequireSeq(nodes []parse.Node) *require {
 			}
 			if kw.Val == ":refer" {
 				r.comments.attachCommentsAbove(comments(refer))
-				refer = v.Children()
+				refer = referNodes(v)
 			} else {
 				r.comments.attachCommentsAbove(comments(referMacros))
-				referMacros = v.Children()
+				referMacros = referNodes(v)
 			}
 			switch v.(type) {
 			case *parse.ListNode, *parse.VectorNode:
@@ -549,6 +549,16 @@ func parseUse(n parse.Node) *require {
 	}
 }
 
+// referNodes returns the nodes of a refer list, or nil if the list is empty.
+func referNodes(list parse.Node) []parse.Node {
+	for _, n := range list.Children() {
+		if !goclj.Newline(n) {
+			return list.Children()
+		}
+	}
+	return nil
+}
+
 // isReferList returns whether there are only symbols and comments in nodes.
 func isReferList(nodes []parse.Node) bool {
 	for _, n := range nodes {
@@ -588,7 +598,7 @@ func parseUseSeq(nodes []parse.Node) *require {
 			default:
 				return nil
 			}
-			r.refer.origRefer = nodes[2].Children()
+			r.refer.origRefer = referNodes(nodes[2])
 			if !isReferList(r.refer.origRefer) {
 				return nil
 			}
-- 
2.43.0


From 675d8889a014da8468e97fe9c05d5f25e80329b2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:16 +0000
Subject: [PATCH 55/58] fix: refuse input that is nested too deeply instead of
 exhausting the stack

---
 parse/parse.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parse/parse.go b/parse/parse.go
index 4561617..47b4d2d 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -19,6 +19,7 @@ type Tree struct {
 	ignoreReaderDiscard bool
 
 	// Parser state
+	depth     int   // the number of forms being parsed
 	tok       token // single-item lookahead
 	peekCount int
 	lex       *lexer
@@ -61,6 +62,10 @@ func (t *Tree) parse() (err error) {
 	return nil
 }
 
+// maxDepth limits how deeply forms may be nested, so that no input can exhaust
+// the stack.
+const maxDepth = 100000
+
 type lexError struct{ err error }
 type parseError struct{ err error }
 
@@ -150,6 +155,11 @@ func File(filename string, opts ParseOpts) (*Tree, error) {
 // parseNext parses the next top-level item from the token stream.
 // It returns nil if there are no non-EOF tokens left in the stream.
 func (t *Tree) parseNext() Node {
+	t.depth++
+	defer func() { t.depth-- }()
+	if t.depth > maxDepth {
+		t.errorf(t.next().pos, "forms are nested too deeply")
+	}
 	for {
 		switch tok := t.next(); tok.typ {
 		case tokSymbol:
-- 
2.43.0


From 97893d645a6282528cd02a98e0b8103ed4010561 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:29 +0000
Subject: [PATCH 56/58] fix: keep the backup next to the file that a link leads
 to, and the link

---
 cljfmt/cljfmt.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index 6ca5847..f7bff77 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -220,6 +220,11 @@ func (c *config) processFile(filename string, in io.Reader) error {
 			}
 		}
 		if c.write {
+			// The backup has to be next to the file, not to a link to it.
+			filename, err := filepath.EvalSymlinks(filename)
+			if err != nil {
+				return err
+			}
 			backup, err := writeBackup(filename, buf1.Bytes(), perm)
 			if err != nil {
 				return err
-- 
2.43.0


From 9ebf5d57430181721781aff6a0d98c58e4bd0250 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:22 +0000
Subject: [PATCH 57/58] fix: add the line breaks after comments in one pass

---
 format/format.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/format/format.go b/format/format.go
index 37ade50..9371553 100644
--- a/format/format.go
+++ b/format/format.go
@@ -115,23 +115,31 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 // would swallow whatever is printed after it. The final node doesn't need a
 // newline unless there is a closing delimiter.
 func terminateComments(nodes []parse.Node, delimited bool) []parse.Node {
-	for i := 0; i < len(nodes); i++ {
-		switch n := nodes[i].(type) {
-		case *parse.CommentNode:
-			last := i == len(nodes)-1
-			if last && !delimited || !last && goclj.Newline(nodes[i+1]) {
-				continue
-			}
-			rest := append([]parse.Node{new(parse.NewlineNode)}, nodes[i+1:]...)
-			nodes = append(nodes[:i+1:i+1], rest...)
-		default:
+	var fixed []parse.Node // nil as long as nothing was added
+	for i, n := range nodes {
+		if fixed != nil {
+			fixed = append(fixed, n)
+		}
+		if !goclj.Comment(n) {
 			children := n.Children()
 			if fixed := terminateComments(children, true); len(fixed) != len(children) {
 				n.SetChildren(fixed)
 			}
+			continue
 		}
+		last := i == len(nodes)-1
+		if last && !delimited || !last && goclj.Newline(nodes[i+1]) {
+			continue
+		}
+		if fixed == nil {
+			fixed = append(fixed, nodes[:i+1]...)
+		}
+		fixed = append(fixed, newline())
+	}
+	if fixed == nil {
+		return nodes
 	}
-	return nodes
+	return fixed
 }
 
 // printNode prints a representation of node using w, the given indent level
-- 
2.43.0


From f9c95e276536ef1a9dd3ee5151a3c2bb9036909a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:23 +0000
Subject: [PATCH 58/58] fix: back up files with long names too

---
 cljfmt/cljfmt.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index f7bff77..b8593f3 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -249,7 +249,11 @@ func (c *config) processFile(filename string, in io.Reader) error {
 // writeBackup writes data, the contents of filename, to a new file next to it
 // so that they aren't lost if rewriting filename is interrupted.
 func writeBackup(filename string, data []byte, perm os.FileMode) (backup string, err error) {
-	f, err := ioutil.TempFile(filepath.Dir(filename), "."+filepath.Base(filename)+".")
+	prefix := "." + filepath.Base(filename) + "."
+	if len(prefix) > 200 {
+		prefix = ".cljfmt." // names can't be much longer
+	}
+	f, err := ioutil.TempFile(filepath.Dir(filename), prefix)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0

