From fb988824f21555a5622d1da973be1867f5180f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 01/10] fix: compute FOLLOW from everything after the symbol,
 not only its neighbour

With A and B nullable, in <s> ::= <a> <b> "c" FOLLOW(a) lacked FIRST of "c"
(and wrongly had FOLLOW(s)), so the sentence "c" was rejected.
---
 pkg/bnf/tablegen/tablegen.go | 37 ++++++------------------------------
 1 file changed, 6 insertions(+), 31 deletions(-)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 049b9ce..9897f3f 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -143,34 +143,6 @@ func (tg *tableGenerator) findFirsts() error {
 	return nil
 }
 
-// symbolFirsts
-// Helper function to get firsts for symbol assuming
-// firsts sets already calculated
-func (tg *tableGenerator) symbolFirsts(symbol *bnf.Symbol) (bs.ByteSet, error) {
-	var ret bs.ByteSet
-	switch v := (*symbol).(type) {
-	case bnf.SymbolTerminal:
-		if len(v.Name) == 0 {
-			return ret, fmt.Errorf("terminal with empty string check grammar")
-		}
-		return terminalFirsts(v), nil
-
-	case bnf.SymbolNothing:
-		return bs.New(EOS), nil
-
-	case bnf.SymbolNonTerminal:
-		ruleIndex, ok := tg.ruleMap[v.Name]
-		if !ok {
-			return ret,
-				fmt.Errorf("no rules defined for non terminal <%s>", v.Name)
-		}
-		return tg.firsts[ruleIndex], nil
-
-	default:
-		return ret, fmt.Errorf("symbol of unknown type: %T", v)
-	}
-}
-
 func (tg *tableGenerator,
 ) ruleFollowsInSequence(
 	ruleIndex int,
@@ -229,14 +201,17 @@ func (tg *tableGenerator,
 		}
 
 		// rule 2
-		// get firsts for next symbol in sequance (can be itself)
-		nextFirsts, err := tg.symbolFirsts(&(*sequence).Symbols[i+1])
+		// get firsts for everything what follows symbol in sequence
+		// (it is not only next symbol: it and symbols after it can be empty)
+		nextFirsts, err := tg.sequenceFirsts(&bnf.Sequence{
+			Symbols: (*sequence).Symbols[i+1:],
+		})
 		if err != nil {
 			return err
 		}
 
 		// rule 4
-		// if next symbol (q) 's firsts contain empty string (Є)
+		// if firsts of rest of sequence (q) contain empty string (Є)
 		// add to target rule's follows it's firsts w/o empty
 		// and follow set for sequence's rule (A)
 		//
-- 
2.43.0


From b457838574c4cb32e84f1b92d2dc7da5ed8e3b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 02/10] fix: report table cells claimed by two alternatives

FIRST/FIRST conflicts, and FIRST/FOLLOW conflicts with the empty alternative
listed first, were not detected: operations of both alternatives were
concatenated in the cell. Also drop a debug print to stdout.
---
 pkg/bnf/tablegen/tablegen.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 9897f3f..e677ee0 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -308,8 +308,7 @@ func (tg *tableGenerator,
 			seqFollows := tg.follows[ruleIndex]
 
 			for _, followTerm := range seqFollows.Bytes() {
-				if v, ok := res[byte(followTerm)]; ok {
-					fmt.Println(v)
+				if _, ok := res[byte(followTerm)]; ok {
 					return res,
 						fmt.Errorf("grammar lead to multiple parser op " +
 							"sets per table cell")
@@ -321,6 +320,11 @@ func (tg *tableGenerator,
 		}
 
 		for _, term := range seqFirsts.Bytes() {
+			if _, ok := res[byte(term)]; ok {
+				return res,
+					fmt.Errorf("grammar lead to multiple parser op " +
+						"sets per table cell")
+			}
 			for _, symbol := range sequence.Symbols {
 				switch v := symbol.(type) {
 				case bnf.SymbolTerminal:
-- 
2.43.0


From 2ff96f9880a7e3c96c54899a766e2d396e9d97f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 03/10] fix: return an error instead of panicking on malformed
 grammars

A grammar without rules, an empty terminal and an empty string after another
symbol of a sequence (<a> ::= "b" "") panicked.
---
 pkg/bnf/tablegen/tablegen.go | 40 ++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index e677ee0..3181d4c 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -389,10 +389,50 @@ func (tg *tableGenerator) Run() (table *map[int]map[byte][]parser.ParserOp,
 	return tg.makeTable()
 }
 
+// checkGrammar
+// Reports grammars no parsing table can be generated for
+func checkGrammar(g bnf.Grammar) error {
+	if len(g.Rules) == 0 {
+		return errors.New("grammar without rules")
+	}
+
+	for _, rule := range g.Rules {
+		for _, sequence := range rule.Tail.Sequences {
+			for _, symbol := range sequence.Symbols {
+				switch v := symbol.(type) {
+				case bnf.SymbolTerminal:
+					if len(v.Name) == 0 {
+						return errors.New(
+							"terminal with empty string check grammar")
+					}
+
+				case bnf.SymbolNothing:
+					if len(sequence.Symbols) > 1 {
+						return errors.New(
+							"empty string is not a single sequence symbol")
+					}
+
+				case bnf.SymbolNonTerminal:
+
+				default:
+					return fmt.Errorf("symbol of unknown type: %T", v)
+				}
+			}
+		}
+	}
+
+	return nil
+}
+
 func FromGrammar(g bnf.Grammar) (table *map[int]map[byte][]parser.ParserOp,
 	rowNames *map[int]string,
 	err error) {
 
+	err = checkGrammar(g)
+	if err != nil {
+		return nil, nil, err
+	}
+
 	ruleHeads := collectRuleHeads(g)
 
 	var tablegen tableGenerator
-- 
2.43.0


From 8c35b93e4454fff32686aa1bbbd39c832ed75edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 04/10] fix: report undefined non terminals wherever they are
 used

In an alternative no input can select (<a> ::= "b" | <c> "d" <e> with
<c> ::= <c> "x") an undefined <e> went unreported.
---
 pkg/bnf/tablegen/tablegen.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 3181d4c..5e94aa8 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -396,6 +396,11 @@ func checkGrammar(g bnf.Grammar) error {
 		return errors.New("grammar without rules")
 	}
 
+	defined := map[string]bool{}
+	for _, rule := range g.Rules {
+		defined[rule.Head.Name] = true
+	}
+
 	for _, rule := range g.Rules {
 		for _, sequence := range rule.Tail.Sequences {
 			for _, symbol := range sequence.Symbols {
@@ -413,6 +418,10 @@ func checkGrammar(g bnf.Grammar) error {
 					}
 
 				case bnf.SymbolNonTerminal:
+					if !defined[v.Name] {
+						return fmt.Errorf(
+							"no rules defined for non terminal <%s>", v.Name)
+					}
 
 				default:
 					return fmt.Errorf("symbol of unknown type: %T", v)
-- 
2.43.0


From 5fb48ee1a6773c5b197b66fa4d01cd42d643c37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 05/10] fix: reject grammars defining a non terminal more than
 once

References silently resolved to the last definition, dropping the alternatives
of the others, and the row of the earlier one had no name.
---
 pkg/bnf/tablegen/tablegen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 5e94aa8..de02a4b 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -398,6 +398,10 @@ func checkGrammar(g bnf.Grammar) error {
 
 	defined := map[string]bool{}
 	for _, rule := range g.Rules {
+		if defined[rule.Head.Name] {
+			return fmt.Errorf("non terminal <%s> defined more than once",
+				rule.Head.Name)
+		}
 		defined[rule.Head.Name] = true
 	}
 
-- 
2.43.0


From b43300dbb93f5282ca3ba0b1559ad282105e97ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 06/10] fix: reject terminals starting with a zero byte

Byte zero stands for end of input in the table and for the empty string in
FIRST sets, so such a terminal was taken for an empty alternative.
---
 pkg/bnf/tablegen/tablegen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index de02a4b..72df0a5 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -415,6 +415,12 @@ func checkGrammar(g bnf.Grammar) error {
 							"terminal with empty string check grammar")
 					}
 
+					// a zero byte can't select a table cell: its column is EOS
+					if v.Name[0] == EOS {
+						return fmt.Errorf(
+							"terminal starting with zero byte: %q", v.Name)
+					}
+
 				case bnf.SymbolNothing:
 					if len(sequence.Symbols) > 1 {
 						return errors.New(
-- 
2.43.0


From 149dd8d543576baa2c68b21efb526b4fd7b2e0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 07/10] fix: do not take a zero byte of the input for its end

Input with trailing data after a zero byte was accepted, and a zero byte in a
terminal matched past the end of the input.
---
 pkg/parser/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index f462f08..55a0445 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -210,6 +210,10 @@ func (s *ll1parserScanner) peek() byte {
 	return s.src[s.offset]
 }
 
+func (s *ll1parserScanner) isEOS() bool {
+	return s.offset >= len(s.src)
+}
+
 func (s *ll1parserScanner) next() {
 	s.offset++
 }
@@ -350,7 +354,7 @@ func (p *realParser) processFunction(f function_t) {
 }
 
 func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
-	if p.scanner.peek() != byte(0) {
+	if !p.scanner.isEOS() {
 		// fmt.Println("expected end of input got: ", in.Peek())
 		// Parsing error Unexpected EOF
 		return nil, nil, fmt.Errorf("expected end of input got %s",
@@ -372,7 +376,7 @@ func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
 }
 
 func (p *realParser) processChar(c opChar_t) error {
-	if c.Value() != p.scanner.peek() {
+	if p.scanner.isEOS() || c.Value() != p.scanner.peek() {
 		// Parsing error
 		return fmt.Errorf("expected char %s, got %s",
 		                  charCode(c.Value()),
-- 
2.43.0


From a195a5d16da0c5917fe35930cc9c05e26253add3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 08/10] fix: do not write to the names map given to
 NewLL1Parser

Concurrent Parse calls on one parser raced on it (fatal error: concurrent map
writes), a nil map panicked, and the caller's map was altered.
---
 pkg/parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 55a0445..c9bf197 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -368,7 +368,11 @@ func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
 		return nil, nil, fmt.Errorf("prod stack empty")
 	}
 
-	ret_names := p.names
+	// copy to not write to map shared with user and concurrent Parse calls
+	ret_names := make(map[int]string, len(p.names) + 2)
+	for id, name := range p.names {
+		ret_names[id] = name
+	}
 	ret_names[builtinTerminal] = "_literal"
 	ret_names[builtinNothing]  = "_nothing"
 
-- 
2.43.0


From 36f8708d4397332e9daf7b408f4a51cd80ff9970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 09/10] fix: do not sort the caller's IgnoreNodeTypes in place

Concurrent ToAST calls sharing bindings raced on it.
---
 pkg/bnf/fromcst/fromcst.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/bnf/fromcst/fromcst.go b/pkg/bnf/fromcst/fromcst.go
index bb03b31..b6926eb 100644
--- a/pkg/bnf/fromcst/fromcst.go
+++ b/pkg/bnf/fromcst/fromcst.go
@@ -301,6 +301,8 @@ func (b BNFCSTtoASTBindings) parseRule(rule cst.Node, str string) (*bnf.Rule, er
 
 func (b BNFCSTtoASTBindings) ToAST(root cst.Node, str string) (*bnf.Grammar, error) {
 
+	// sort a copy: slice is shared with user and concurrent ToAST calls
+	b.IgnoreNodeTypes = append([]int{}, b.IgnoreNodeTypes...)
 	sort.Sort(sort.IntSlice(b.IgnoreNodeTypes))
 
 	var res bnf.Grammar
-- 
2.43.0


From b406aea99c3cfb26f9460c8ccfbd091c906c060c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 10/10] fix: find escape sequences by the bindings, not by a
 fixed node type

parseTerminalName took node type 16 for escape sequences, whatever the
bindings said, so bindings for a grammar with another rule numbering produced
terminals with raw or missing escapes.
---
 pkg/bnf/fromcst/fromcst.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/pkg/bnf/fromcst/fromcst.go b/pkg/bnf/fromcst/fromcst.go
index b6926eb..2e2cb80 100644
--- a/pkg/bnf/fromcst/fromcst.go
+++ b/pkg/bnf/fromcst/fromcst.go
@@ -13,7 +13,7 @@ import (
 
 type flexVisitor struct {
 	isTypeIgnored  func(int) bool
-	isSearchedType func(int) bool
+	isSearched     func(cst.Node) bool
 	fOnNode        func(cst.Node) error
 	err            *error
 }
@@ -27,7 +27,7 @@ func (v flexVisitor) Visit(node cst.Node) (w cst.Visitor) {
 		return nil
 	}
 
-	if v.isSearchedType(node.Type()) {
+	if v.isSearched(node) {
 		(*v.err) = v.fOnNode(node)
 		return nil
 	}
@@ -36,7 +36,7 @@ func (v flexVisitor) Visit(node cst.Node) (w cst.Visitor) {
 }
 
 // depth-first cst search
-// When meets isSearchedType(Node.type) == true executes fOnNode on node
+// When meets isSearched(Node) == true executes fOnNode on node
 // If fOnNode returned error immediately returns with fOnNode's error
 // Childs of node on which fOnNode executed are ignored
 // When Traverse complete returns nil
@@ -44,14 +44,14 @@ func (v flexVisitor) Visit(node cst.Node) (w cst.Visitor) {
 // This function used by all functions in chain from ToAST
 func lrTraverse(root cst.Node,
                 isTypeIgnored func(int) bool,
-                isSearchedType func(int) bool,
+                isSearched func(cst.Node) bool,
                 fOnNode func(cst.Node) error) error {
 
 	var err error = nil
 	var v flexVisitor
 	v.err = &err
 	v.isTypeIgnored = isTypeIgnored
-	v.isSearchedType = isSearchedType
+	v.isSearched = isSearched
 	v.fOnNode = fOnNode
 
 	cst.Walk(v, root)
@@ -113,11 +113,11 @@ func (b BNFCSTtoASTBindings) lrTraverse(root cst.Node,
 		return (sr < len(b.IgnoreNodeTypes) && b.IgnoreNodeTypes[sr] == nodeType)
 	}
 
-	isSearchedType := func(nodeType int) bool {
-		return nodeType == untilType
+	isSearched := func(node cst.Node) bool {
+		return node.Type() == untilType
 	}
 
-	return lrTraverse(root, isNodeIgnored, isSearchedType, f)
+	return lrTraverse(root, isNodeIgnored, isSearched, f)
 }
 
 func (b BNFCSTtoASTBindings) parseEscape(escSeq cst.Node, str string) ([]byte, error) {
@@ -161,10 +161,24 @@ func (b BNFCSTtoASTBindings) parseTerminalName(symbol cst.Node, str string) (str
 		return nil
 	}
 
+	// escape sequence is a node directly containing escape character
+	isEscapeSequence := func(node cst.Node) bool {
+		for _, child := range node.Childs() {
+			if child.Type() == b.EscapeCharacterType {
+				return true
+			}
+		}
+		return false
+	}
+
+	isLiteralOrEscape := func(node cst.Node) bool {
+		return node.Type() == parser.BuiltinTerminal || isEscapeSequence(node)
+	}
+
 	err := lrTraverse(
 		symbol,
 		func(int) bool { return false },
-		func(n int) bool { return n == 16 || n == parser.BuiltinTerminal },
+		isLiteralOrEscape,
 		fOnNode)
 
 	return sb.String(), err
-- 
2.43.0

