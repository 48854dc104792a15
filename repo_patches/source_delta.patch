From 299bff163f887e2b7f1728d51cbce0295a9bdb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:23 +0000
Subject: [PATCH 01/73] fix: goyaml reader must not end the open collections on
 a nil error

AddError is called by generated code with the result of UnmarshalText and
UnmarshalYAML, which is usually nil. Treating it as fatal exhausted every open
collection, so that the remaining fields and elements were lost.
---
 engines/goyaml/decode/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 7a855d4..5312e57 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -551,6 +551,9 @@ func (r *ASTReader) AddError(err error) {
 }
 
 func (r *ASTReader) setFatalError(err error) {
+	if err == nil {
+		return
+	}
 	for _, point := range r.route {
 		if point.iter != nil {
 			for !point.iter.empty() {
-- 
2.43.0


From 678a1ee6ff24f99d1e94a691a6353905bff7bd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:35 +0000
Subject: [PATCH 02/73] fix: yayamls reader ends the open collections on a
 fatal error

Generated decoders loop while CollectionState.HasUnprocessedItems. After a
fatal error every read is a no-op, so the collection never ended and the loop
never returned (growing a slice forever in case of a sequence).
---
 engines/yayamls/decode/reader.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 17a90c7..d3d8600 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -624,7 +624,7 @@ func (r *ASTReader) appendError(err error) {
 	if r.multipleDenyErrors && errors.Is(err, yamly.ErrDenied) {
 		r.denyErrors = append(r.denyErrors, err)
 	} else if r.fatalError == nil {
-		r.fatalError = err
+		r.setFatalError(err)
 	}
 }
 
@@ -642,6 +642,20 @@ func (r *ASTReader) Error() error {
 
 func (r *ASTReader) AddError(err error) {
 	if r.fatalError == nil {
-		r.fatalError = err
+		r.setFatalError(err)
 	}
 }
+
+func (r *ASTReader) setFatalError(err error) {
+	if err == nil {
+		return
+	}
+	for _, point := range r.route {
+		if point.iter != nil {
+			for !point.iter.empty() {
+				point.iter.node()
+			}
+		}
+	}
+	r.fatalError = err
+}
-- 
2.43.0


From be6772f2bf3159fc533c7fd8ed478b028a89da0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:38 +0000
Subject: [PATCH 03/73] fix: readers leave an alias once its value has been
 read

The anchored node was pushed on the route above the alias, so that the alias
was visited again (and its value returned again) by every following read, and
a collection containing an alias never ended. An anchored value containing an
alias to itself is reported as an error instead of being expanded forever.
---
 engines/goyaml/decode/any.go     | 19 +++++++++++++++++--
 engines/goyaml/decode/reader.go  | 16 +++++++++++++++-
 engines/yayamls/decode/any.go    | 17 +++++++++++++----
 engines/yayamls/decode/reader.go | 19 ++++++++++++++++---
 4 files changed, 61 insertions(+), 10 deletions(-)

diff --git a/engines/goyaml/decode/any.go b/engines/goyaml/decode/any.go
index a0dbe15..1d2a742 100644
--- a/engines/goyaml/decode/any.go
+++ b/engines/goyaml/decode/any.go
@@ -17,7 +17,9 @@ type anyBuilder struct {
 	extractMergeMap bool
 	mergeMap        map[string]any
 
-	errors []error
+	// dereferenced contains anchored nodes which are being visited through aliases
+	dereferenced map[*yaml.Node]struct{}
+	errors       []error
 }
 
 func (a *anyBuilder) extractAnyValue(n *yaml.Node) (any, error) {
@@ -43,10 +45,23 @@ func (a *anyBuilder) visitNode(n *yaml.Node) {
 	case yaml.ScalarNode:
 		a.visitScalarNode(n)
 	case yaml.AliasNode:
-		a.visitNode(n.Alias)
+		a.visitAliasNode(n)
 	}
 }
 
+func (a *anyBuilder) visitAliasNode(n *yaml.Node) {
+	if _, ok := a.dereferenced[n.Alias]; ok {
+		a.appendError(fmt.Errorf("anchor %q value contains itself", n.Value))
+		return
+	}
+	if a.dereferenced == nil {
+		a.dereferenced = map[*yaml.Node]struct{}{}
+	}
+	a.dereferenced[n.Alias] = struct{}{}
+	a.visitNode(n.Alias)
+	delete(a.dereferenced, n.Alias)
+}
+
 func (a *anyBuilder) visitSequenceNode(n *yaml.Node) {
 	s := make([]any, 0, len(n.Content))
 
diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 5312e57..8ca65c0 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -385,7 +385,12 @@ func (r *ASTReader) visitNode(n *yaml.Node) {
 	case yaml.ScalarNode:
 		r.visitScalarNode(n)
 	case yaml.AliasNode:
-		r.pushRoutePoint(routePoint{
+		if r.inRoute(n.Alias) {
+			r.appendError(fmt.Errorf("anchor %q value contains itself", n.Value))
+			return
+		}
+		// alias is replaced with anchored node, so it is left along with the node
+		r.swapRoutePoint(routePoint{
 			node: n.Alias,
 		})
 		r.visitNode(n.Alias)
@@ -520,6 +525,15 @@ func (r *ASTReader) swapRoutePoint(point routePoint) {
 	r.route[len(r.route)-1] = point
 }
 
+func (r *ASTReader) inRoute(n *yaml.Node) bool {
+	for _, point := range r.route {
+		if point.node == n {
+			return true
+		}
+	}
+	return false
+}
+
 func (r *ASTReader) setLatestDeny(err *denyError) {
 	r.latestDenyError = yamly.DenyError(err)
 }
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index fd7b9de..0df677a 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -18,12 +18,15 @@ type anyBuilder struct {
 	mergeMap        map[string]any
 
 	anchors *anchorsKeeper
-	errors  []error
+	// dereferenced contains anchored nodes which are being visited through aliases
+	dereferenced map[ast.Node]struct{}
+	errors       []error
 }
 
 func newAnyBuilder(anchors *anchorsKeeper) anyBuilder {
 	return anyBuilder{
-		anchors: anchors,
+		anchors:      anchors,
+		dereferenced: map[ast.Node]struct{}{},
 	}
 }
 
@@ -49,9 +52,15 @@ func (a *anyBuilder) VisitAliasNode(n *ast.AliasNode) {
 	anchored, err := a.anchors.DereferenceAlias(n.Text())
 	if err != nil {
 		a.appendError(err)
-	} else {
-		a.visitNode(anchored)
+		return
+	}
+	if _, ok := a.dereferenced[anchored]; ok {
+		a.appendError(fmt.Errorf("anchor %q value contains itself", n.Text()))
+		return
 	}
+	a.dereferenced[anchored] = struct{}{}
+	a.visitNode(anchored)
+	delete(a.dereferenced, anchored)
 }
 
 func (a *anyBuilder) VisitTextNode(n *ast.TextNode) {
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index d3d8600..61aabad 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -388,10 +388,14 @@ func (r *ASTReader) VisitAnchorNode(n *ast.AnchorNode) {
 
 func (r *ASTReader) VisitAliasNode(n *ast.AliasNode) {
 	anchored, err := r.anchors.DereferenceAlias(n.Text())
-	if err != nil {
+	switch {
+	case err != nil:
 		r.appendError(err)
-	} else {
-		r.pushRoutePoint(routePoint{
+	case r.inRoute(anchored):
+		r.appendError(fmt.Errorf("anchor %q value contains itself", n.Text()))
+	default:
+		// alias is replaced with anchored node, so it is left along with the node
+		r.swapRoutePoint(routePoint{
 			node: anchored,
 		})
 		anchored.Accept(r)
@@ -616,6 +620,15 @@ func (r *ASTReader) swapRoutePoint(point routePoint) {
 	r.route[len(r.route)-1] = point
 }
 
+func (r *ASTReader) inRoute(n ast.Node) bool {
+	for _, point := range r.route {
+		if point.node == n {
+			return true
+		}
+	}
+	return false
+}
+
 func (r *ASTReader) setLatestDeny(err *denyError) {
 	r.latestDenyError = yamly.DenyError(err)
 }
-- 
2.43.0


From 610113cd2307a098bf33852bf69cd6e05d13d35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:33 +0000
Subject: [PATCH 04/73] fix: yayamls reader keeps anchors of skipped subtrees

An alias to an anchor defined within a skipped subtree (e.g. unknown field) or
a subtree returned by Node could not be dereferenced.
---
 engines/yayamls/decode/anchors.go  | 33 ++++++++++++++++++++++++++++++
 engines/yayamls/decode/expected.go |  2 +-
 engines/yayamls/decode/reader.go   |  4 ++++
 3 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/decode/anchors.go b/engines/yayamls/decode/anchors.go
index 917c47d..19edbb6 100644
--- a/engines/yayamls/decode/anchors.go
+++ b/engines/yayamls/decode/anchors.go
@@ -41,3 +41,36 @@ func (ak *anchorsKeeper) clear() {
 	ak.metAnchor = false
 	ak.anchorName = ""
 }
+
+// CollectAnchors stores and binds all anchors from given subtree.
+// It is used when subtree is not visited by reader itself.
+func (ak *anchorsKeeper) CollectAnchors(n ast.Node) {
+	if !ast.ValidNode(n) {
+		return
+	}
+	switch n := n.(type) {
+	case *ast.StreamNode:
+		ak.collectFromAll(n.Documents())
+	case *ast.AnchorNode:
+		ak.StoreAnchor(n.Text())
+	case *ast.PropertiesNode:
+		ak.CollectAnchors(n.Anchor())
+	case *ast.ContentNode:
+		ak.CollectAnchors(n.Properties())
+		ak.BindToLatestAnchor(n.Content())
+		ak.CollectAnchors(n.Content())
+	case *ast.SequenceNode:
+		ak.collectFromAll(n.Entries())
+	case *ast.MappingNode:
+		ak.collectFromAll(n.Entries())
+	case *ast.MappingEntryNode:
+		ak.CollectAnchors(n.Key())
+		ak.CollectAnchors(n.Value())
+	}
+}
+
+func (ak *anchorsKeeper) collectFromAll(nodes []ast.Node) {
+	for _, n := range nodes {
+		ak.CollectAnchors(n)
+	}
+}
diff --git a/engines/yayamls/decode/expected.go b/engines/yayamls/decode/expected.go
index 1061fb5..199a9d9 100644
--- a/engines/yayamls/decode/expected.go
+++ b/engines/yayamls/decode/expected.go
@@ -304,7 +304,7 @@ func (expectSkip) process(n ast.Node, prev visitingResult) visitingResult {
 			}
 		default:
 			return visitingResult{
-				conclusion: visitingConclusionConsume,
+				conclusion: visitingConclusionMatch,
 			}
 		}
 	}
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 61aabad..a318f83 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -351,6 +351,7 @@ func (r *ASTReader) Node() ast.Node {
 		return nil
 	}
 	n := r.currentNode()
+	r.anchors.CollectAnchors(n)
 	r.popRoutePoint()
 	return n
 }
@@ -364,7 +365,10 @@ func (r *ASTReader) Skip() {
 	if r.latestDenyError != nil || r.hasFatalError() {
 		r.appendError(r.latestDenyError)
 		r.latestDenyError = nil
+		return
 	}
+	r.anchors.CollectAnchors(r.currentNode())
+	r.popRoutePoint()
 }
 
 func (r *ASTReader) VisitStreamNode(n *ast.StreamNode) {
-- 
2.43.0


From 36f214f67ef1d62527067f4832ca9e2b9746a665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:35 +0000
Subject: [PATCH 05/73] fix: unescaping of double quoted YAML strings

The digits of \x, \u and \U escape sequences were taken after the sequence
instead of from it (or out of range), and \b was not accepted at all.
---
 engines/yayamls/yamlchar/chars.go           |  2 +-
 engines/yayamls/yamlchar/transformations.go | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index b3df724..1db76b7 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -222,7 +222,7 @@ func IsJSONChar(r rune) bool {
 }
 
 // YAML specification: [41-58] ns-esc-...
-const singleEscapedCharacters = "0at\tnvfre \"/\\N_LP"
+const singleEscapedCharacters = "0abt\tnvfre \"/\\N_LP"
 
 // IsEscapedCharacter checks if given runes are valid escaped sequence of characters in YAML
 // (i.e. \<valid single escaped character>, \x<two hex digits>, \u<four hex digits> or
diff --git a/engines/yayamls/yamlchar/transformations.go b/engines/yayamls/yamlchar/transformations.go
index 2da178c..0836fe0 100644
--- a/engines/yayamls/yamlchar/transformations.go
+++ b/engines/yayamls/yamlchar/transformations.go
@@ -174,7 +174,7 @@ func unescapeASCIICharacter(runes []rune, i int) (rune, int, error) {
 		result = '\a'
 	case 'b':
 		result = '\b'
-	case 't':
+	case 't', '\t':
 		result = '\t'
 	case 'n':
 		result = '\n'
@@ -221,8 +221,8 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 2 hexadecimal digits after \\x, but have %s",
 				string(runes[i:i+2]))
 		}
-		i += 2
 		escaped = runes[i : i+2]
+		i += 2
 	case 'u':
 		i++
 		if len(runes)-i < 4 {
@@ -232,8 +232,8 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 4 hexadecimal digits after \\u, but have %s",
 				string(runes[i:i+4]))
 		}
-		i += 4
 		escaped = runes[i : i+4]
+		i += 4
 	case 'U':
 		i++
 		if len(runes)-i < 8 {
@@ -243,15 +243,15 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 8 hexadecimal digits after \\U, but have %s",
 				string(runes[i:i+8]))
 		}
-		i += 8
 		escaped = runes[i : i+8]
+		i += 8
 	}
 	result, err := parseEscapedHexDigits(escaped)
 	return result, i, err
 }
 
 func parseEscapedHexDigits(runes []rune) (rune, error) {
-	result, err := strconv.ParseInt(string(runes), 16, 32)
+	result, err := strconv.ParseUint(string(runes), 16, 32)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 70508a62b41c2c2c8c0219a6325a5958b0fc5a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:08 +0000
Subject: [PATCH 06/73] fix: yayamls decodes escape sequences of quoted strings

Values read with NewASTReaderFromBytes and subtrees inserted with InsertRaw
contained escape sequences as they were written in the source, so a string did
not survive marshaling and unmarshaling. AST returned by parser functions
stays as is, unless WithUnescapedText is used.
---
 engines/yayamls/decode/reader.go  |  2 +-
 engines/yayamls/encode/builder.go |  2 +-
 engines/yayamls/lexer/context.go  |  2 +-
 engines/yayamls/parser/flow.go    | 38 ++++++++++++++++++++++++-------
 engines/yayamls/parser/options.go |  9 ++++++++
 engines/yayamls/parser/parser.go  |  9 +++++++-
 6 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index a318f83..3255ffb 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -119,7 +119,7 @@ func WithMultipleDenyErrors() ReaderOption {
 }
 
 func NewASTReaderFromBytes(src []byte, opts ...ReaderOption) (*ASTReader, error) {
-	tree, err := parser.ParseBytes(src, parser.WithOmitStream())
+	tree, err := parser.ParseBytes(src, parser.WithOmitStream(), parser.WithUnescapedText())
 	if err != nil {
 		return nil, err
 	}
diff --git a/engines/yayamls/encode/builder.go b/engines/yayamls/encode/builder.go
index f795bfb..e606626 100644
--- a/engines/yayamls/encode/builder.go
+++ b/engines/yayamls/encode/builder.go
@@ -126,7 +126,7 @@ func (b *ASTBuilder) InsertRaw(data []byte, err error) {
 		b.fatalError = err
 		return
 	}
-	tree, err := parser.ParseBytes(data, parser.WithOmitStream())
+	tree, err := parser.ParseBytes(data, parser.WithOmitStream(), parser.WithUnescapedText())
 	if err != nil {
 		b.fatalError = err
 		return
diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 6efc386..5cee200 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -406,7 +406,7 @@ func (c *context) doubleQuoteMatching(t *Tokenizer, r rune) (token.Token, bool)
 		if !c.escaped {
 			escaped = true
 		}
-	case yamlchar.SpaceCharacter:
+	case yamlchar.SpaceCharacter, yamlchar.TabCharacter:
 		if c.escaped {
 			c.escaped = false
 			return token.Token{}, false
diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 75a9898..b0492af 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -171,7 +171,7 @@ func (p *parser) parseDoubleOneLine() ast.Node {
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
 	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.DoubleQuotedCharSetType)) ||
 		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
+		p.writeDoubleQuoted(buf)
 		p.next()
 	}
 	text := buf.String()
@@ -188,7 +188,7 @@ func (p *parser) parseDoubleMultiLine(ind *indentation) ast.Node {
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
 	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.DoubleQuotedCharSetType)) ||
 		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
+		p.writeDoubleQuoted(buf)
 		p.next()
 	}
 
@@ -228,12 +228,12 @@ func (p *parser) parseDoubleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 		return ast.NewBasicNode(ast.TextType)
 	}
 	p.commit()
-	buf.WriteString(p.tok.Origin)
+	p.writeDoubleQuoted(buf)
 	p.next()
 
 	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.DoubleQuotedCharSetType)) ||
 		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
+		p.writeDoubleQuoted(buf)
 		p.next()
 	}
 
@@ -346,7 +346,7 @@ func (p *parser) parseSingleOneLine() ast.Node {
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
 	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.SingleQuotedCharSetType)) ||
 		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
+		p.writeSingleQuoted(buf)
 		p.next()
 	}
 	text := buf.String()
@@ -363,7 +363,7 @@ func (p *parser) parseSingleMultiLine(ind *indentation) ast.Node {
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
 	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.SingleQuotedCharSetType)) ||
 		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
+		p.writeSingleQuoted(buf)
 		p.next()
 	}
 
@@ -401,12 +401,12 @@ func (p *parser) parseSingleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 		return ast.NewBasicNode(ast.TextType)
 	}
 	p.commit()
-	buf.WriteString(p.tok.Origin)
+	p.writeSingleQuoted(buf)
 	p.next()
 
 	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.SingleQuotedCharSetType)) ||
 		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
+		p.writeSingleQuoted(buf)
 		p.next()
 	}
 
@@ -426,6 +426,28 @@ func (p *parser) parseSingleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 	return ast.NewBasicNode(ast.TextType)
 }
 
+// writeDoubleQuoted writes the content of current token, which is part of double quoted text.
+func (p *parser) writeDoubleQuoted(buf *bytes.Buffer) {
+	p.writeQuoted(buf, yamlchar.ConvertFromYAMLDoubleQuotedString)
+}
+
+// writeSingleQuoted writes the content of current token, which is part of single quoted text.
+func (p *parser) writeSingleQuoted(buf *bytes.Buffer) {
+	p.writeQuoted(buf, yamlchar.ConvertFromYAMLSingleQuotedString)
+}
+
+func (p *parser) writeQuoted(buf *bytes.Buffer, unquote func(string) (string, error)) {
+	text := p.tok.Origin
+	if p.unescape {
+		var err error
+		if text, err = unquote(text); err != nil {
+			p.appendError(err)
+			return
+		}
+	}
+	buf.WriteString(text)
+}
+
 // YAML specification: [140] c-flow-mapping
 func (p *parser) parseFlowMapping(ind *indentation, ctx context) ast.Node {
 	if p.hasErrors() || p.tok.Type != token.MappingStartType {
diff --git a/engines/yayamls/parser/options.go b/engines/yayamls/parser/options.go
index dfe678c..93d5184 100644
--- a/engines/yayamls/parser/options.go
+++ b/engines/yayamls/parser/options.go
@@ -3,6 +3,7 @@ package parser
 type parseOptions struct {
 	tokenStreamConstructor func(string) ConfigurableTokenStream
 	omitStream             bool
+	unescape               bool
 }
 
 // ParseOption allows to modify parser behavior
@@ -30,6 +31,14 @@ func WithOmitStream() ParseOption {
 	})
 }
 
+// WithUnescapedText will make parser replace escape sequences of single and double quoted texts
+// with the characters they represent.
+func WithUnescapedText() ParseOption {
+	return parseOptionsFunc(func(options *parseOptions) {
+		options.unescape = true
+	})
+}
+
 func applyOptions(opts ...ParseOption) parseOptions {
 	var o parseOptions
 	for _, opt := range opts {
diff --git a/engines/yayamls/parser/parser.go b/engines/yayamls/parser/parser.go
index 2a71018..d1b9421 100644
--- a/engines/yayamls/parser/parser.go
+++ b/engines/yayamls/parser/parser.go
@@ -51,6 +51,9 @@ type parser struct {
 	errors         []error
 	balanceChecker balancecheck.BalanceChecker
 	deadEndFinder  deadend.Finder
+
+	// unescape makes parser replace escape sequences of quoted texts with escaped characters.
+	unescape bool
 }
 
 type state struct {
@@ -106,7 +109,10 @@ func ParseString(src string, opts ...ParseOption) (ast.Node, error) {
 	} else {
 		cts = lexer.NewTokenizer(src)
 	}
-	tree, err := ParseTokenStream(cts)
+	p := newParser(newTokenSource(cts))
+	p.unescape = o.unescape
+	defer p.tokSrc.release()
+	tree, err := p.Parse()
 	if err != nil {
 		return nil, err
 	}
@@ -190,6 +196,7 @@ func (p *parser) release() {
 	p.balanceChecker.Reset()
 	p.deadEndFinder.Reset()
 	p.errors = p.errors[:0]
+	p.unescape = false
 	p.state = state{startOfLine: true}
 	parserPool.Put(p)
 }
-- 
2.43.0


From 2450d633e703c8958a25e4c6c3fa27baab50d528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:22 +0000
Subject: [PATCH 07/73] fix: escape non-printable characters and BOM in double
 quoted strings

These characters are not allowed to be written as is, and a document
containing them is rejected by parsers, including yayamls itself (BOM).
---
 engines/yayamls/yamlchar/chars.go           | 7 +++++++
 engines/yayamls/yamlchar/transformations.go | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index 1db76b7..d6304f3 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -221,6 +221,13 @@ func IsJSONChar(r rune) bool {
 	return r == 0x09 || (r >= 0x20 && r <= 0x10FFFF)
 }
 
+// YAML specification: [1] c-printable
+func IsPrintableChar(r rune) bool {
+	return r == 0x09 || r == 0x0A || r == 0x0D || (r >= 0x20 && r <= 0x7E) ||
+		r == 0x85 || (r >= 0xA0 && r <= 0xD7FF) || (r >= 0xE000 && r <= 0xFFFD) ||
+		(r >= 0x10000 && r <= 0x10FFFF)
+}
+
 // YAML specification: [41-58] ns-esc-...
 const singleEscapedCharacters = "0abt\tnvfre \"/\\N_LP"
 
diff --git a/engines/yayamls/yamlchar/transformations.go b/engines/yayamls/yamlchar/transformations.go
index 0836fe0..5f46d7b 100644
--- a/engines/yayamls/yamlchar/transformations.go
+++ b/engines/yayamls/yamlchar/transformations.go
@@ -112,7 +112,7 @@ func escapeCharacter(r rune) (string, bool) {
 }
 
 func escapeUnicodeCharacter(r rune) (string, bool) {
-	if IsJSONChar(r) {
+	if IsPrintableChar(r) && r != ByteOrderMarkCharacter {
 		return "", false
 	}
 	escaped := strconv.QuoteRuneToASCII(r)
-- 
2.43.0


From 39623f0f4e74cb83e240da8f55a20771cdf2f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:56 +0000
Subject: [PATCH 08/73] fix: parse timestamps with the reference year in
 layouts

Layouts were written with year 2001 (which is not a part of Go reference
time), so timestamps in lower t, space separated and short date-only forms
were never recognized.
---
 engines/pkg/schema/schema.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index 4898acc..735f317 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -158,9 +158,9 @@ var timestampLayouts = []string{
 	time.RFC3339Nano,
 	time.DateOnly,
 	"2006-1-2T15:4:5.999999999Z07:00", // short RFC339Nano
-	"2001-1-2t15:4:5.999999999-07:00", // lower t + time zone without 'Z'
-	"2001-1-2 15:4:5.999999999",       // space separated
-	"2001-1-2",                        // date only short form
+	"2006-1-2t15:4:5.999999999-07:00", // lower t + time zone without 'Z'
+	"2006-1-2 15:4:5.999999999",       // space separated
+	"2006-1-2",                        // date only short form
 }
 
 // IsTimestamp shows if string represents a YAML timedate.
-- 
2.43.0


From b2a2d36f3f34368b837058c76acb585f70c76666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:56 +0000
Subject: [PATCH 09/73] fix: keep fractional seconds of encoded timestamps

---
 engines/pkg/schema/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index 735f317..f885dbb 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -176,7 +176,7 @@ func IsTimestamp(s string) bool {
 
 // FromTimestamp converts Go time.Time value into YAML timedate.
 func FromTimestamp(val time.Time) string {
-	return val.Format(time.RFC3339)
+	return val.Format(time.RFC3339Nano)
 }
 
 // ToTimestamp tries to convert YAML string into Go time.Time value.
-- 
2.43.0


From a9dce74dc2967801d63de1ac576e14aa3e55901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:56 +0000
Subject: [PATCH 10/73] fix: decimal integers with leading zeroes or plus sign

A number like 010 was silently read as octal and 08 was rejected, while YAML
core schema defines them as decimal. Also plus sign was rejected by unsigned
integers though it is allowed.
---
 engines/pkg/schema/schema.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index f885dbb..9c9d4ad 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -84,7 +84,8 @@ func FromInteger(val int64) string {
 
 // ToInteger tries to convert YAML into Go integer with given bit size.
 func ToInteger(src string, bitSize int) (int64, error) {
-	return strconv.ParseInt(src, 0, bitSize)
+	digits, base := splitIntegerBase(src)
+	return strconv.ParseInt(digits, base, bitSize)
 }
 
 // FromUnsignedInteger converts Go unsigned integer value into YAML integer.
@@ -94,7 +95,21 @@ func FromUnsignedInteger(val uint64) string {
 
 // ToUnsignedInteger tries to convert YAML into Go unsigned integer with given bit size.
 func ToUnsignedInteger(src string, bitSize int) (uint64, error) {
-	return strconv.ParseUint(src, 0, bitSize)
+	digits, base := splitIntegerBase(strings.TrimPrefix(src, "+"))
+	return strconv.ParseUint(digits, base, bitSize)
+}
+
+// splitIntegerBase removes base prefix and returns remaining digits with their base.
+// Unlike Go, leading zeroes do not make integer octal in YAML.
+func splitIntegerBase(src string) (string, int) {
+	switch {
+	case yamlOctalIntegerRegex.MatchString(src):
+		return src[2:], 8
+	case yamlHexadecimalIntegerRegex.MatchString(src):
+		return src[2:], 16
+	default:
+		return src, 10
+	}
 }
 
 var (
-- 
2.43.0


From f457f4e554e0aa698b7150743a6ff4a5e18978d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:29 +0000
Subject: [PATCH 11/73] fix: write empty sequences and mappings

They were written as nothing, i.e. as null (or, at the root, as an empty
document), and could not be read back.
---
 engines/yayamls/encode/writer.go | 34 ++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 325f2af..e8c6123 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -16,7 +16,11 @@ const (
 	defaultIndendationDelta = 2
 )
 
-const nullValue = "null"
+const (
+	nullValue     = "null"
+	emptySequence = "[]"
+	emptyMapping  = "{}"
+)
 
 var _ yamly.TreeWriter[ast.Node] = (*ASTWriter)(nil)
 
@@ -196,6 +200,10 @@ func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 
 func (w *ASTWriter) VisitSequenceNode(n *ast.SequenceNode) {
 	w.writePreparedData(n)
+	if len(n.Entries()) == 0 {
+		w.buf.WriteString(emptySequence)
+		return
+	}
 	for _, entry := range n.Entries() {
 		w.maybeWriteIndentation()
 		w.buf.WriteByte('-')
@@ -210,6 +218,10 @@ func (w *ASTWriter) VisitSequenceNode(n *ast.SequenceNode) {
 
 func (w *ASTWriter) VisitMappingNode(n *ast.MappingNode) {
 	w.writePreparedData(n)
+	if len(n.Entries()) == 0 {
+		w.buf.WriteString(emptyMapping)
+		return
+	}
 	for _, entry := range n.Entries() {
 		w.maybeWriteIndentation()
 		entry.Accept(w)
@@ -283,11 +295,11 @@ func (w *ASTWriter) writeBeforeSimpleElements(s string) {
 }
 
 func (w *ASTWriter) writePreparedData(n ast.Node) {
-	switch n.Type() {
-	case ast.SequenceType, ast.MappingType:
-		w.buf.WriteString(w.beforeComplex)
-	case ast.ContentType:
+	switch {
+	case n.Type() == ast.ContentType:
 		return
+	case isComplex(n):
+		w.buf.WriteString(w.beforeComplex)
 	default:
 		w.buf.WriteString(w.beforeSimple)
 	}
@@ -378,11 +390,13 @@ func isMultiline(s string) bool {
 }
 
 func isComplex(n ast.Node) bool {
-	switch n.Type() {
-	case ast.SequenceType, ast.MappingType:
-		return true
-	case ast.ContentType:
-		return isComplex(n.(*ast.ContentNode).Content()) // nolint: forcetypeassert
+	switch n := n.(type) {
+	case *ast.SequenceNode:
+		return len(n.Entries()) != 0
+	case *ast.MappingNode:
+		return len(n.Entries()) != 0
+	case *ast.ContentNode:
+		return isComplex(n.Content())
 	default:
 		return false
 	}
-- 
2.43.0


From 48a044a61b73b7641f82e38ab71dee84767f6054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:14 +0000
Subject: [PATCH 12/73] fix: write properties and complex keys in the right
 place

Properties of the root node were glued to its content, properties of a mapping
within a sequence became properties of its first key, colon after a nested
complex key was not indented, and alias used as a key absorbed the colon.
---
 engines/yayamls/encode/writer.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index e8c6123..a1c7eb3 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -138,6 +138,7 @@ func (w *ASTWriter) VisitStreamNode(n *ast.StreamNode) {
 	for _, doc := range n.Documents() {
 		w.buf.WriteString("---\n")
 		doc.Accept(w)
+		w.maybeWriteLineBreak()
 		w.buf.WriteString("...\n")
 	}
 }
@@ -234,6 +235,10 @@ func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 
 	isComplexKey := isComplex(n.Key())
 	if isComplexKey {
+		// entry may be an element of sequence
+		w.buf.WriteString(w.beforeComplex)
+		w.writeBeforeComplexElements("")
+		w.writeBeforeSimpleElements("")
 		w.buf.WriteString("? ")
 		w.increaseIndentation()
 	}
@@ -242,6 +247,10 @@ func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 
 	if isComplexKey {
 		w.decreaseIndentation()
+		w.maybeWriteIndentation()
+	} else if isAlias(key) {
+		// colon is allowed in anchor name
+		w.buf.WriteByte(' ')
 	}
 	w.buf.WriteByte(':')
 	w.writeBeforeComplexElements("\n")
@@ -276,8 +285,10 @@ func (w *ASTWriter) VisitContentNode(n *ast.ContentNode) {
 	w.writePreparedData(n)
 	properties, content := n.Properties(), n.Content()
 	if ast.ValidNode(properties) {
-		w.buf.WriteByte(' ')
+		w.buf.WriteString(w.beforeSimple)
 		properties.Accept(w)
+		w.writeBeforeComplexElements("\n")
+		w.writeBeforeSimpleElements(" ")
 
 		if w.opts.anchorsKeeper != nil {
 			w.opts.anchorsKeeper.BindToLatestAnchor(n)
@@ -389,6 +400,10 @@ func isMultiline(s string) bool {
 	return strings.ContainsRune(s, '\n')
 }
 
+func isAlias(n ast.Node) bool {
+	return n.Type() == ast.AliasType
+}
+
 func isComplex(n ast.Node) bool {
 	switch n := n.(type) {
 	case *ast.SequenceNode:
-- 
2.43.0


From 0cfb93543153d11494e0bd4c08f2023cbbbbf68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:53 +0000
Subject: [PATCH 13/73] fix: do not write texts unquoted if they can not be
 read back

Text of a node with absent or unknown quoting (a literal block inserted or read
as raw, a string inserted into builder with unquoted one-line strings) was
written as is even if it was not a valid plain string. Line breaks in single
quoted strings and keys were written as is as well.
---
 engines/yayamls/encode/writer.go  | 24 +++++++++---
 engines/yayamls/yamlchar/chars.go | 64 +++++++++++++++++++++++++++++++
 2 files changed, 82 insertions(+), 6 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index a1c7eb3..02168ff 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -36,6 +36,8 @@ type ASTWriter struct {
 
 	metAnchors map[string]struct{}
 
+	writingKey bool
+
 	opts writeOptions
 }
 
@@ -181,20 +183,27 @@ func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 	w.writePreparedData(n)
 	switch txt := n.Text(); n.QuotingType() {
 	case ast.AbsentQuotingType:
-		if isMultiline(txt) {
+		switch {
+		case isMultiline(txt) && !w.writingKey && w.indentation > 0 && yamlchar.CanBeLiteral(txt):
 			w.writeMultilineLiteralText(txt)
-		} else {
+		case yamlchar.CanBePlain(txt):
 			w.buf.WriteString(txt)
+		default:
+			w.writeDoubleQuotedText(txt)
 		}
 	case ast.SingleQuotingType:
-		w.writeSingleQuotedText(txt)
+		if yamlchar.CanBeSingleQuoted(txt) {
+			w.writeSingleQuotedText(txt)
+		} else {
+			w.writeDoubleQuotedText(txt)
+		}
 	case ast.DoubleQuotingType:
 		w.writeDoubleQuotedText(txt)
 	default:
-		if isMultiline(txt) {
-			w.writeDoubleQuotedText(txt)
-		} else {
+		if yamlchar.CanBePlain(txt) {
 			w.buf.WriteString(txt)
+		} else {
+			w.writeDoubleQuotedText(txt)
 		}
 	}
 }
@@ -243,7 +252,9 @@ func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 		w.increaseIndentation()
 	}
 
+	w.writingKey = !isComplexKey
 	key.Accept(w)
+	w.writingKey = false
 
 	if isComplexKey {
 		w.decreaseIndentation()
@@ -393,6 +404,7 @@ func (w *ASTWriter) reset() {
 	w.indentation = defaultBasicIndentation
 	w.beforeSimple = ""
 	w.beforeComplex = ""
+	w.writingKey = false
 	clear(w.metAnchors)
 }
 
diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index d6304f3..a0b381d 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -283,3 +283,67 @@ func IsLineBreakChar(r rune) bool {
 func IsBlankChar(r rune) bool {
 	return IsWhitespaceChar(r) || IsLineBreakChar(r)
 }
+
+// CanBePlain checks if given string can be written as a one-line plain (unquoted) string.
+func CanBePlain(s string) bool {
+	if s == "" {
+		return true
+	}
+	runes := []rune(s)
+	n := len(runes)
+	if IsWhitespaceChar(runes[0]) || IsWhitespaceChar(runes[n-1]) ||
+		strings.HasPrefix(s, "---") || strings.HasPrefix(s, "...") {
+		return false
+	}
+	switch runes[0] {
+	case SequenceEntryCharacter, MappingKeyCharacter, MappingValueCharacter:
+		if n == 1 || IsWhitespaceChar(runes[1]) {
+			return false
+		}
+	case CollectEntryCharacter, SequenceStartCharacter, SequenceEndCharacter, MappingStartCharacter,
+		MappingEndCharacter, CommentCharacter, AnchorCharacter, AliasCharacter, TagCharacter,
+		LiteralCharacter, FoldedCharacter, SingleQuoteCharacter, DoubleQuoteCharacter,
+		DirectiveCharacter, ReservedAtCharacter, ReservedBackquoteCharacter:
+		return false
+	}
+	for i, r := range runes {
+		switch {
+		case !isOneLineChar(r):
+			return false
+		case r == MappingValueCharacter && (i+1 == n || IsWhitespaceChar(runes[i+1])):
+			return false
+		case r == CommentCharacter && IsWhitespaceChar(runes[i-1]):
+			return false
+		}
+	}
+	return true
+}
+
+// CanBeSingleQuoted checks if given string can be written as a one-line single quoted string.
+func CanBeSingleQuoted(s string) bool {
+	for _, r := range s {
+		if !isOneLineChar(r) {
+			return false
+		}
+	}
+	return true
+}
+
+// CanBeLiteral checks if given string can be written as a literal without indentation indicator.
+func CanBeLiteral(s string) bool {
+	if s == "" || IsBlankChar(rune(s[0])) {
+		return false
+	}
+	for _, r := range s {
+		if r != LineFeedCharacter && !isOneLineChar(r) {
+			return false
+		}
+	}
+	return true
+}
+
+// isOneLineChar checks if given rune can be written as is within a single line.
+func isOneLineChar(r rune) bool {
+	return IsPrintableChar(r) && !IsLineBreakChar(r) &&
+		r != ByteOrderMarkCharacter && r != 0x85 && r != 0x2028 && r != 0x2029
+}
-- 
2.43.0


From b2d22626b714316b82dd9b7d912b872f402c4ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:07 +0000
Subject: [PATCH 14/73] fix: builders report unfinished and unexpected trees

Building an empty tree, a tree with unfinished collections or an entry without
value returned no error and made writers panic, a node inserted after the root
silently replaced it or was appended into a raw root mapping. Unquoted strings
which look like null are quoted, since they were read back as null.
---
 engines/goyaml/encode/builder.go  | 22 ++++++++++++++++++++--
 engines/yayamls/encode/builder.go | 25 +++++++++++++++++++++++--
 2 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index 681d980..b1801c3 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -61,7 +61,7 @@ func (b *ASTBuilder) InsertFloat(val float64) {
 
 func (b *ASTBuilder) InsertString(val string) {
 	style := yaml.DoubleQuotedStyle
-	if b.opts.unquoteOneliners && !isMultiline(val) {
+	if b.opts.unquoteOneliners && !isMultiline(val) && !schema.IsNull(val) {
 		style = 0
 	}
 	insertNonNullValue(b, val, func(s string) string { return s }, style)
@@ -131,6 +131,8 @@ func (b *ASTBuilder) EndMapping() {
 			"failed to end mapping: expected mapping, but currenlty at %s",
 			kindToString(currentNode.Kind),
 		)
+	case len(currentNode.Content)%2 != 0:
+		b.fatalError = fmt.Errorf("failed to end mapping: last entry has no value")
 	default:
 		b.popNode()
 	}
@@ -172,6 +174,16 @@ func (b *ASTBuilder) InsertRawText(data []byte, err error) {
 func (b *ASTBuilder) Result() (*yaml.Node, error) {
 	root := b.root
 	err := b.fatalError
+	switch {
+	case err != nil:
+	case root == nil:
+		err = fmt.Errorf("failed to build tree: no nodes were inserted")
+	case len(b.route) != 0:
+		err = fmt.Errorf("failed to build tree: %s is not finished", kindToString(b.currentNode().Kind))
+	}
+	if err != nil {
+		root = nil
+	}
 	b.route = b.route[:0]
 	b.root = nil
 	b.fatalError = nil
@@ -195,8 +207,14 @@ func (b *ASTBuilder) insertNode(n *yaml.Node, pushToRoute bool) {
 	}
 	currentNode := b.currentNode()
 	if currentNode == nil {
-		b.pushNode(n)
+		if b.root != nil {
+			b.fatalError = fmt.Errorf("cannot insert new node to tree: tree is already complete")
+			return
+		}
 		b.root = n
+		if pushToRoute {
+			b.pushNode(n)
+		}
 		return
 	}
 
diff --git a/engines/yayamls/encode/builder.go b/engines/yayamls/encode/builder.go
index e606626..9eed1a9 100644
--- a/engines/yayamls/encode/builder.go
+++ b/engines/yayamls/encode/builder.go
@@ -64,7 +64,7 @@ func (b *ASTBuilder) InsertFloat(val float64) {
 
 func (b *ASTBuilder) InsertString(val string) {
 	quoting := ast.DoubleQuotingType
-	if b.opts.unquoteOneliners && !isMultiline(val) {
+	if b.opts.unquoteOneliners && !isMultiline(val) && !isNullText(val) {
 		quoting = ast.AbsentQuotingType
 	}
 	insertNonNullValue(b, val, func(t string) string { return t }, quoting)
@@ -152,12 +152,27 @@ func (b *ASTBuilder) InsertRawText(text []byte, err error) {
 func (b *ASTBuilder) Result() (ast.Node, error) {
 	root := b.root
 	err := b.fatalError
+	switch {
+	case err != nil:
+	case root == nil:
+		err = fmt.Errorf("failed to build tree: no nodes were inserted")
+	case len(b.route) != 0:
+		err = fmt.Errorf("failed to build tree: %s is not finished", b.currentNode().Type())
+	}
+	if err != nil {
+		root = nil
+	}
 	b.route = b.route[:0]
 	b.root = nil
 	b.fatalError = nil
 	return root, err
 }
 
+// isNullText shows if unquoted string would be treated as null.
+func isNullText(val string) bool {
+	return schema.IsNull(ast.NewTextNode(val))
+}
+
 func insertNonNullValue[T any](t *ASTBuilder, val T, converter func(T) string, quotingType ast.QuotingType) {
 	t.insertNode(
 		ast.NewTextNode(
@@ -174,8 +189,14 @@ func (b *ASTBuilder) insertNode(n ast.Node, pushToRoute bool) {
 	}
 	currentNode := b.currentNode()
 	if !ast.ValidNode(currentNode) {
-		b.pushNode(n)
+		if b.root != nil {
+			b.fatalError = fmt.Errorf("cannot insert new node to tree: tree is already complete")
+			return
+		}
 		b.root = n
+		if pushToRoute {
+			b.pushNode(n)
+		}
 		return
 	}
 
-- 
2.43.0


From fd902471c8db3578e8f88648655a027ca82460e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:08 +0000
Subject: [PATCH 15/73] fix: goyaml InsertRaw rejects data which is not a
 single document

Empty data was inserted as a node of unknown kind, which panics or fails on
writing, and all documents except the first were silently dropped.
---
 engines/goyaml/encode/builder.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index b1801c3..f7ecf9e 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -1,7 +1,10 @@
 package encode
 
 import (
+	"bytes"
+	"errors"
 	"fmt"
+	"io"
 	"strings"
 	"time"
 
@@ -146,9 +149,18 @@ func (b *ASTBuilder) InsertRaw(data []byte, err error) {
 		b.fatalError = err
 		return
 	}
-	var n yaml.Node
-	if err := yaml.Unmarshal(data, &n); err != nil {
-		b.fatalError = err
+	var n, extra yaml.Node
+	dec := yaml.NewDecoder(bytes.NewReader(data))
+	if err := dec.Decode(&n); err != nil {
+		b.fatalError = fmt.Errorf("failed to insert raw: %w", err)
+		return
+	}
+	switch err := dec.Decode(&extra); {
+	case err == nil:
+		b.fatalError = fmt.Errorf("failed to insert raw: expected single document, got stream of documents")
+		return
+	case !errors.Is(err, io.EOF):
+		b.fatalError = fmt.Errorf("failed to insert raw: %w", err)
 		return
 	}
 	var result *yaml.Node
-- 
2.43.0


From ba17fc7b0c58fc6e8a7a04d62947ad72187daa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:46 +0000
Subject: [PATCH 16/73] fix: goyaml Raw does not follow cyclic aliases forever

---
 engines/goyaml/decode/raw.go    | 33 +++++++++++++++++++++++++--------
 engines/goyaml/decode/reader.go |  7 ++++++-
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/engines/goyaml/decode/raw.go b/engines/goyaml/decode/raw.go
index d9c60f5..ef2582b 100644
--- a/engines/goyaml/decode/raw.go
+++ b/engines/goyaml/decode/raw.go
@@ -1,6 +1,10 @@
 package decode
 
-import "gopkg.in/yaml.v3"
+import (
+	"fmt"
+
+	"gopkg.in/yaml.v3"
+)
 
 // rawTransformer is used to transform AST before serializing to bytes.
 // The goal of transformation is to provide full context to the subtree,
@@ -22,11 +26,17 @@ type rawTransformer struct {
 	metAnchors     map[string]struct{}
 
 	dereferencedAliases []dereferencedAliasInfo
+
+	// visiting contains nodes which are being visited and is used to find aliases
+	// to the anchors enclosing them
+	visiting map[*yaml.Node]struct{}
+	err      error
 }
 
 func newRawTransformer() rawTransformer {
 	return rawTransformer{
 		metAnchors: map[string]struct{}{},
+		visiting:   map[*yaml.Node]struct{}{},
 	}
 }
 
@@ -52,21 +62,28 @@ func (rt *rawTransformer) visitNode(n *yaml.Node) {
 	}
 	switch n.Kind {
 	case yaml.AliasNode:
+		if _, ok := rt.visiting[n.Alias]; ok {
+			rt.err = fmt.Errorf("anchor %q value contains itself", n.Value)
+			return
+		}
 		rt.visitNode(n.Alias)
 	case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode:
+		rt.visiting[n] = struct{}{}
 		for i, child := range n.Content {
 			if child.Kind == yaml.AliasNode {
-				if _, metAnchor := rt.metAnchors[child.Value]; !metAnchor {
-					n.Content[i] = child.Alias
-					rt.dereferencedAliases = append(rt.dereferencedAliases, dereferencedAliasInfo{
-						parent: n,
-						alias:  child,
-						idx:    i,
-					})
+				if _, metAnchor := rt.metAnchors[child.Value]; metAnchor {
+					continue
 				}
+				n.Content[i] = child.Alias
+				rt.dereferencedAliases = append(rt.dereferencedAliases, dereferencedAliasInfo{
+					parent: n,
+					alias:  child,
+					idx:    i,
+				})
 			}
 			rt.visitNode(child)
 		}
+		delete(rt.visiting, n)
 	}
 }
 
diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 8ca65c0..206fa16 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -322,7 +322,12 @@ func (r *ASTReader) Raw() []byte {
 	}
 	curNode := r.currentNode()
 	transformer := newRawTransformer()
-	v, err := yaml.Marshal(transformer.transform(curNode))
+	tree := transformer.transform(curNode)
+	var v []byte
+	err := transformer.err
+	if err == nil {
+		v, err = yaml.Marshal(tree)
+	}
 	transformer.restore(curNode)
 	if err != nil {
 		r.appendError(err)
-- 
2.43.0


From bd9722ed916bd7fac921e0af9cc2ba83ca4339d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:47 +0000
Subject: [PATCH 17/73] fix: goyaml reader of an empty tree reports the end of
 stream

Zero node, which is the result of unmarshaling an empty document, made reader
return nil collection states, and an empty document node made it panic.
---
 engines/goyaml/decode/reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 206fa16..6c6b556 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -127,9 +127,13 @@ func NewASTReader(tree *yaml.Node, opts ...ReaderOption) *ASTReader {
 
 func (r *ASTReader) setAST(tree *yaml.Node) {
 	r.reset()
-	if tree.Kind == yaml.DocumentNode {
+	if tree != nil && tree.Kind == yaml.DocumentNode && len(tree.Content) > 0 {
 		tree = tree.Content[0]
 	}
+	if tree == nil || tree.Kind == yaml.DocumentNode || tree.IsZero() {
+		// there is nothing to read
+		return
+	}
 	r.pushRoutePoint(routePoint{
 		node: tree,
 	})
-- 
2.43.0


From a234bbb91a51ddf310f07ece40dee64753bd7784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:47 +0000
Subject: [PATCH 18/73] fix: goyaml CollectionState.Size returns the number of
 mapping entries

---
 engines/goyaml/decode/reader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 6c6b556..1f2bd71 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -390,7 +390,12 @@ func (r *ASTReader) visitNode(n *yaml.Node) {
 		if point.visitingResult.conclusion == visitingConclusionUnknown {
 			point.iter = newNodeIterator(n)
 		}
-		r.processComplexPoint(point, len(n.Content))
+		size := len(n.Content)
+		if n.Kind == yaml.MappingNode {
+			// mapping content consists of both keys and values
+			size /= 2
+		}
+		r.processComplexPoint(point, size)
 	case yaml.ScalarNode:
 		r.visitScalarNode(n)
 	case yaml.AliasNode:
-- 
2.43.0


From 4a5dbfffd92dc81c2503f244cdd967734a65d939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:09 +0000
Subject: [PATCH 19/73] fix: yayamls Raw dereferences aliases to anchors
 outside of the subtree

Raw data contained dangling aliases, so UnmarshalYAML methods called with it
failed. Goyaml engine already behaves this way.
---
 engines/yayamls/decode/reader.go |  2 +-
 engines/yayamls/encode/writer.go | 48 +++++++++++++++++++++++---------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 3255ffb..2b8b2c6 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -329,7 +329,7 @@ func (r *ASTReader) Raw() []byte {
 		r.latestDenyError = nil
 		return nil
 	}
-	w := encode.NewASTWriter()
+	w := encode.NewASTWriter(encode.WithAnchorsKeeper(&r.anchors))
 	v, err := w.WriteBytes(r.currentNode())
 	if err != nil {
 		r.appendError(err)
diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 02168ff..ffb2b9a 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -3,6 +3,7 @@ package encode
 import (
 	"bytes"
 	"errors"
+	"fmt"
 	"io"
 	"strings"
 
@@ -35,6 +36,8 @@ type ASTWriter struct {
 	beforeSimple  string
 
 	metAnchors map[string]struct{}
+	// dereferenced contains anchored nodes which are being written instead of aliases
+	dereferenced map[ast.Node]struct{}
 
 	writingKey bool
 
@@ -48,6 +51,7 @@ func NewASTWriter(opts ...WriteOption) *ASTWriter {
 		indentation:      defaultBasicIndentation,
 		indentationDelta: defaultIndendationDelta,
 		metAnchors:       map[string]struct{}{},
+		dereferenced:     map[ast.Node]struct{}{},
 	}
 
 	for _, opt := range opts {
@@ -162,21 +166,33 @@ func (w *ASTWriter) VisitAnchorNode(n *ast.AnchorNode) {
 }
 
 func (w *ASTWriter) VisitAliasNode(n *ast.AliasNode) {
-	alias := n.Text()
-	_, hasWroteAnchor := w.metAnchors[alias]
-	if w.opts.anchorsKeeper != nil && !hasWroteAnchor {
-		anchored, err := w.opts.anchorsKeeper.DereferenceAlias(alias)
-		if err != nil {
-			w.appendError(err)
-		} else if ast.ValidNode(anchored) {
-			anchored.Accept(w)
-		}
+	if !w.mustDereference(n.Text()) {
+		w.writePreparedData(n)
+		w.buf.WriteString("*")
+		w.buf.WriteString(n.Text())
 		return
 	}
 
-	w.writePreparedData(n)
-	w.buf.WriteString("*")
-	w.buf.WriteString(n.Text())
+	anchored, err := w.opts.anchorsKeeper.DereferenceAlias(n.Text())
+	if err != nil {
+		w.appendError(err)
+		return
+	}
+	if _, ok := w.dereferenced[anchored]; ok {
+		w.appendError(fmt.Errorf("anchor %q value contains itself", n.Text()))
+		return
+	}
+	if ast.ValidNode(anchored) {
+		w.dereferenced[anchored] = struct{}{}
+		anchored.Accept(w)
+		delete(w.dereferenced, anchored)
+	}
+}
+
+// mustDereference shows if alias must be replaced with the node it refers to.
+func (w *ASTWriter) mustDereference(alias string) bool {
+	_, hasWroteAnchor := w.metAnchors[alias]
+	return w.opts.anchorsKeeper != nil && !hasWroteAnchor
 }
 
 func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
@@ -242,7 +258,12 @@ func (w *ASTWriter) VisitMappingNode(n *ast.MappingNode) {
 func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 	key, value := n.Key(), n.Value()
 
-	isComplexKey := isComplex(n.Key())
+	isComplexKey := isComplex(key)
+	if alias, ok := key.(*ast.AliasNode); ok && w.mustDereference(alias.Text()) {
+		if anchored, err := w.opts.anchorsKeeper.DereferenceAlias(alias.Text()); err == nil {
+			isComplexKey = isComplex(anchored)
+		}
+	}
 	if isComplexKey {
 		// entry may be an element of sequence
 		w.buf.WriteString(w.beforeComplex)
@@ -406,6 +427,7 @@ func (w *ASTWriter) reset() {
 	w.beforeComplex = ""
 	w.writingKey = false
 	clear(w.metAnchors)
+	clear(w.dereferenced)
 }
 
 func isMultiline(s string) bool {
-- 
2.43.0


From 5ed05edf67678ee5636db295b031e44fac1cbde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:01 +0000
Subject: [PATCH 20/73] fix: indicators inside of plain scalars are characters
 of the scalar

---
 engines/yayamls/lexer/context.go   | 49 ++++++++++++++++++++++++++++--
 engines/yayamls/lexer/tokenizer.go |  5 +++
 2 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 5cee200..1ff2d6c 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -23,6 +23,9 @@ type context struct {
 	ctxStack []contextType
 	escaped  bool
 	rawMode  bool
+	// inPlain shows that the current position is inside of a plain scalar,
+	// where most of indicators are just characters of the scalar.
+	inPlain bool
 }
 
 func newContext() context {
@@ -86,6 +89,10 @@ func (c *context) matchSpecialToken(t *Tokenizer, r rune) (token.Token, bool) {
 		return c.rawMatching(t, r)
 	}
 
+	if c.inPlain && isCharacterOfPlain(r, c.currentType()) {
+		return c.baseMatching(t, r)
+	}
+
 	switch c.currentType() {
 	case blockContextType:
 		return c.blockMatching(t, r)
@@ -106,6 +113,34 @@ func (c *context) matchSpecialToken(t *Tokenizer, r rune) (token.Token, bool) {
 	}
 }
 
+// isCharacterOfPlain shows if the rune is always an ordinary character inside of a plain scalar
+// (though it may be an indicator outside of it).
+func isCharacterOfPlain(r rune, ctxType contextType) bool {
+	switch r {
+	case yamlchar.MappingValueCharacter, yamlchar.CommentCharacter:
+		return false
+	default:
+		return ctxType != flowContextType || !yamlchar.IsFlowIndicatorChar(r)
+	}
+}
+
+// afterToken keeps track of plain scalars. It must be called for every non-raw token with
+// the token preceding it.
+func (c *context) afterToken(tok, prev token.Type) {
+	switch tok {
+	case token.SpaceType, token.TabType:
+	case token.StringType:
+		switch prev {
+		case token.AnchorType, token.AliasType, token.TagType, token.DirectiveType:
+		default:
+			ctxType := c.currentType()
+			c.inPlain = c.inPlain || ctxType == blockContextType || ctxType == flowContextType
+		}
+	default:
+		c.inPlain = false
+	}
+}
+
 func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 	tok := token.Token{Start: t.pos}
 	switch r {
@@ -124,7 +159,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		if t.lookahead(3, func(runes []rune) bool {
 			return runes[0] == runes[1] && runes[1] == yamlchar.DirectiveEndCharacter &&
 				(yamlchar.IsBlankChar(runes[2]) || runes[2] == EOF)
-		}) && t.lookbehind(token.MayPrecedeWord) {
+		}) && t.lookbehind(isStartOfLine) {
 			tok.Origin = string([]rune{r, t.ra.Next(), t.ra.Next()})
 			t.pos.Column += 2
 			tok.End = t.pos
@@ -231,7 +266,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		if t.lookahead(3, func(runes []rune) bool {
 			return runes[0] == runes[1] && runes[1] == yamlchar.DocumentEndCharacter &&
 				(yamlchar.IsBlankChar(runes[2]) || runes[2] == EOF)
-		}) && t.lookbehind(token.MayPrecedeWord) {
+		}) && t.lookbehind(isStartOfLine) {
 			tok.Origin = string([]rune{r, t.ra.Next(), t.ra.Next()})
 			t.pos.Column += 2
 			tok.End = t.pos
@@ -346,6 +381,16 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 	return c.baseMatching(t, r)
 }
 
+// isStartOfLine shows if the token may precede document markers.
+func isStartOfLine(tok token.Token) bool {
+	switch tok.Type {
+	case token.LineBreakType, token.BOMType, token.UnknownType:
+		return true
+	default:
+		return false
+	}
+}
+
 func mayPrecedeWordInFlow(tok token.Token) bool {
 	return token.MayPrecedeWord(tok) || token.IsOpeningFlowIndicator(tok)
 }
diff --git a/engines/yayamls/lexer/tokenizer.go b/engines/yayamls/lexer/tokenizer.go
index ec5c8b7..a65c849 100644
--- a/engines/yayamls/lexer/tokenizer.go
+++ b/engines/yayamls/lexer/tokenizer.go
@@ -88,6 +88,7 @@ func (t *Tokenizer) Next() token.Token {
 
 func (t *Tokenizer) emitToken() token.Token {
 	tok := token.Token{}
+	prev := t.lookbehindTok.Type
 	var originBuilder strings.Builder
 	for {
 
@@ -107,9 +108,12 @@ func (t *Tokenizer) emitToken() token.Token {
 				// decreasing column, because we are currently at rune right after
 				// string token
 				tok.End.Column--
+
+				t.ctx.afterToken(specialTok.Type, tok.Type)
 			} else {
 				tok = specialTok
 				t.lookbehindTok = tok
+				t.ctx.afterToken(tok.Type, prev)
 			}
 			break
 		}
@@ -118,6 +122,7 @@ func (t *Tokenizer) emitToken() token.Token {
 			tok.Type = token.StringType
 			tok.Start = curPos
 			t.lookbehindTok = tok
+			t.ctx.afterToken(tok.Type, prev)
 		}
 		originBuilder.WriteRune(r)
 	}
-- 
2.43.0


From 87443c67dbe426a704eeb20484142eb852da101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:51 +0000
Subject: [PATCH 21/73] fix: yayamls lexer recognizes comments inside of flow
 collections

---
 engines/yayamls/lexer/context.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 1ff2d6c..6924193 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -372,6 +372,14 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			tok.Origin = string([]rune{r})
 			return tok, true
 		}
+	case yamlchar.CommentCharacter:
+		if t.lookbehind(token.MayPrecedeWord) {
+			c.switchContext(commentContextType)
+			tok.End = t.pos
+			tok.Type = token.CommentType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.CollectEntryCharacter:
 		tok.End = t.pos
 		tok.Type = token.CollectEntryType
-- 
2.43.0


From d89d6d43b1ea966b9b20fc697cc3712ee2c52c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:45 +0000
Subject: [PATCH 22/73] fix: indentation and content of block scalars

---
 engines/yayamls/lexer/context.go   | 11 ++++
 engines/yayamls/lexer/tokenizer.go |  1 +
 engines/yayamls/parser/block.go    | 90 ++++++++++++++++--------------
 engines/yayamls/parser/indents.go  |  5 ++
 engines/yayamls/parser/parser.go   |  4 ++
 5 files changed, 69 insertions(+), 42 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 6924193..b623a9b 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -26,6 +26,8 @@ type context struct {
 	// inPlain shows that the current position is inside of a plain scalar,
 	// where most of indicators are just characters of the scalar.
 	inPlain bool
+	// stackSize is the size of context stack before the last emitted token.
+	stackSize int
 }
 
 func newContext() context {
@@ -38,6 +40,15 @@ func (c *context) setRawModeValue(value bool) {
 	c.rawMode = value
 }
 
+// beforeToken must be called before emitting a token.
+func (c *context) beforeToken() {
+	if c.rawMode && len(c.ctxStack) > c.stackSize {
+		// previous token turned out to be a part of raw text, so it does not change the context.
+		c.ctxStack = c.ctxStack[:c.stackSize]
+	}
+	c.stackSize = len(c.ctxStack)
+}
+
 func (c *context) switchContext(ctxType contextType) {
 	c.ctxStack = append(c.ctxStack, ctxType)
 }
diff --git a/engines/yayamls/lexer/tokenizer.go b/engines/yayamls/lexer/tokenizer.go
index a65c849..f5a9260 100644
--- a/engines/yayamls/lexer/tokenizer.go
+++ b/engines/yayamls/lexer/tokenizer.go
@@ -87,6 +87,7 @@ func (t *Tokenizer) Next() token.Token {
 }
 
 func (t *Tokenizer) emitToken() token.Token {
+	t.ctx.beforeToken()
 	tok := token.Token{}
 	prev := t.lookbehindTok.Type
 	var originBuilder strings.Builder
diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 066878b..bf405e3 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -450,6 +450,25 @@ func (p *parser) parseBlockScalar(ind *indentation, ctx context) ast.Node {
 	return newContentNode(properties, content)
 }
 
+// blockScalarIndentation returns the indentation of block scalar content for given parent node indentation.
+func blockScalarIndentation(parent *indentation, header *ast.BlockHeaderNode) indentation {
+	if indVal := header.IndentationIndicator(); indVal != 0 {
+		value := indVal
+		if parent.value > 0 {
+			value += parent.value
+		}
+		return indentation{
+			value: value,
+			mode:  strictEqualityIndentationMode,
+		}
+	}
+	// the content must be more indented than its parent
+	return indentation{
+		value: parent.value + 1,
+		mode:  withLowerBoundIndentationMode,
+	}
+}
+
 // YAML specification: [182] c-l+folded
 func (p *parser) parseFolded(ind *indentation) ast.Node {
 	if p.hasErrors() || p.tok.Type != token.FoldedType {
@@ -462,16 +481,9 @@ func (p *parser) parseFolded(ind *indentation) ast.Node {
 	}
 	castedHeader, ok := header.(*ast.BlockHeaderNode)
 	if !ok {
-		ast.NewInvalidNode()
-	}
-	foldedInd := indentation{
-		value: ind.value,
-		mode:  withLowerBoundIndentationMode,
-	}
-	if indVal := castedHeader.IndentationIndicator(); indVal != 0 {
-		foldedInd.value = ind.value + indVal
-		foldedInd.mode = strictEqualityIndentationMode
+		return ast.NewInvalidNode()
 	}
+	foldedInd := blockScalarIndentation(ind, castedHeader)
 	content := p.parseFoldedContent(&foldedInd, castedHeader.ChompingIndicator())
 	return content
 }
@@ -496,7 +508,7 @@ func (p *parser) parseFoldedContent(ind *indentation, chomping ast.ChompingType)
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
-	return ast.NewTextNode(text)
+	return ast.NewTextNode(text, ast.WithQuotingType(ast.DoubleQuotingType))
 }
 
 // YAML specification: [181] l-nb-diff-lines
@@ -596,14 +608,7 @@ func (p *parser) parseSpacedText(ind *indentation, buf *bytes.Buffer) ast.Node {
 	if !token.IsWhiteSpace(p.tok) {
 		return ast.NewInvalidNode()
 	}
-	buf.WriteString(p.tok.Origin)
-	p.next()
-	p.tokSrc.SetRawMode()
-	for token.IsNonBreak(p.tok) {
-		buf.WriteString(p.tok.Origin)
-		p.next()
-	}
-	p.tokSrc.UnsetRawMode()
+	p.parseRawLine(buf)
 	return ast.NewBasicNode(ast.TextType)
 }
 
@@ -663,14 +668,7 @@ func (p *parser) parseFoldedText(ind *indentation, buf *bytes.Buffer) ast.Node {
 	if !token.IsNonBreak(p.tok) || token.IsWhiteSpace(p.tok) {
 		return ast.NewInvalidNode()
 	}
-	buf.WriteString(p.tok.Origin)
-	p.next()
-	p.tokSrc.SetRawMode()
-	for token.IsNonBreak(p.tok) {
-		buf.WriteString(p.tok.Origin)
-		p.next()
-	}
-	p.tokSrc.UnsetRawMode()
+	p.parseRawLine(buf)
 	return ast.NewBasicNode(ast.TextType)
 }
 
@@ -729,6 +727,19 @@ func (p *parser) parseTrimmed(ind *indentation, ctx context, buf *bytes.Buffer)
 	return ast.NewBasicNode(ast.TextType)
 }
 
+// parseRawLine reads tokens of block scalar line "as is".
+func (p *parser) parseRawLine(buf *bytes.Buffer) {
+	p.tokSrc.SetRawMode()
+	// parentheses are ordinary characters here
+	memento := p.balanceBeforeTok
+	for token.IsNonBreak(p.tok) {
+		buf.WriteString(p.tok.Origin)
+		p.balanceChecker.SetMemento(memento)
+		p.next()
+	}
+	p.tokSrc.UnsetRawMode()
+}
+
 // YAML specification: [170] c-l+literal
 func (p *parser) parseLiteral(ind *indentation) ast.Node {
 	if p.hasErrors() || p.tok.Type != token.LiteralType {
@@ -743,14 +754,7 @@ func (p *parser) parseLiteral(ind *indentation) ast.Node {
 	if !ok {
 		return ast.NewInvalidNode()
 	}
-	literalInd := indentation{
-		value: ind.value,
-		mode:  withLowerBoundIndentationMode,
-	}
-	if indVal := castedHeader.IndentationIndicator(); indVal != 0 {
-		literalInd.value = ind.value + indVal
-		literalInd.mode = strictEqualityIndentationMode
-	}
+	literalInd := blockScalarIndentation(ind, castedHeader)
 	content := p.parseLiteralContent(&literalInd, castedHeader.ChompingIndicator())
 	return content
 }
@@ -790,7 +794,7 @@ func (p *parser) parseLiteralContent(ind *indentation, chomping ast.ChompingType
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
-	return ast.NewTextNode(text)
+	return ast.NewTextNode(text, ast.WithQuotingType(ast.DoubleQuotingType))
 }
 
 // YAML specification: [165] b-chomped-last
@@ -866,7 +870,14 @@ func (p *parser) parseStripEmpty(ind *indentation) ast.Node {
 	}
 	for {
 		p.setCheckpoint()
-		if !ast.ValidNode(p.parseIndentLessThanOrEqual(ind.value)) {
+		var indent ast.Node
+		if ind.mode == withLowerBoundIndentationMode {
+			// there is no content, so empty lines may have any indentation
+			indent = p.parseIndentWithLowerBound(0)
+		} else {
+			indent = p.parseIndentLessThanOrEqual(ind.value)
+		}
+		if !ast.ValidNode(indent) {
 			p.rollback()
 			break
 		}
@@ -944,11 +955,6 @@ func (p *parser) parseLiteralText(ind *indentation, buf *bytes.Buffer) ast.Node
 	if !token.IsNonBreak(p.tok) {
 		return ast.NewInvalidNode()
 	}
-	p.tokSrc.SetRawMode()
-	for token.IsNonBreak(p.tok) {
-		buf.WriteString(p.tok.Origin)
-		p.next()
-	}
-	p.tokSrc.UnsetRawMode()
+	p.parseRawLine(buf)
 	return ast.NewBasicNode(ast.TextType)
 }
diff --git a/engines/yayamls/parser/indents.go b/engines/yayamls/parser/indents.go
index 41265d4..36a21ea 100644
--- a/engines/yayamls/parser/indents.go
+++ b/engines/yayamls/parser/indents.go
@@ -130,6 +130,11 @@ func (p *parser) parseEmpty(ind *indentation, ctx context, buf *bytes.Buffer) as
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
+	if ind.mode == withLowerBoundIndentationMode {
+		// an empty line does not determine the indentation
+		localInd := *ind
+		ind = &localInd
+	}
 	p.setCheckpoint()
 	lp := p.parseLinePrefix(ind, ctx)
 	if !ast.ValidNode(lp) {
diff --git a/engines/yayamls/parser/parser.go b/engines/yayamls/parser/parser.go
index d1b9421..909d4d1 100644
--- a/engines/yayamls/parser/parser.go
+++ b/engines/yayamls/parser/parser.go
@@ -59,6 +59,8 @@ type parser struct {
 type state struct {
 	startOfLine         bool
 	balanceCheckMemento balancecheck.BalanceCheckerMemento
+	// balanceBeforeTok is the state of balance checker before reading the current token.
+	balanceBeforeTok balancecheck.BalanceCheckerMemento
 }
 
 var parserPool = sync.Pool{}
@@ -148,6 +150,7 @@ func (p *parser) Parse() (ast.Node, error) {
 func (p *parser) next() {
 	p.startOfLine = isStartOfLine(p.startOfLine, p.tok)
 	p.tok = p.tokSrc.Next()
+	p.balanceBeforeTok = p.balanceChecker.Memento()
 	switch p.tok.Type {
 	case token.EOFType:
 		if !p.balanceChecker.IsBalanced() {
@@ -206,6 +209,7 @@ func (p *parser) setCheckpoint() {
 	p.savedStates = append(p.savedStates, state{
 		startOfLine:         p.startOfLine,
 		balanceCheckMemento: p.balanceChecker.Memento(),
+		balanceBeforeTok:    p.balanceBeforeTok,
 	})
 }
 
-- 
2.43.0


From cc3d598f2bb9fa4b2ecd3991368ebcba38cc826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:40 +0000
Subject: [PATCH 23/73] fix: parser reports the source it could not parse

---
 engines/yayamls/parser/errors.go | 9 +++++++++
 engines/yayamls/parser/parser.go | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/engines/yayamls/parser/errors.go b/engines/yayamls/parser/errors.go
index 048f254..d6a43f9 100644
--- a/engines/yayamls/parser/errors.go
+++ b/engines/yayamls/parser/errors.go
@@ -115,3 +115,12 @@ type DeadEndError struct {
 func (d DeadEndError) Error() string {
 	return fmt.Sprintf("failed to parse data: meeting a 'dead end' token at position %s", d.Pos)
 }
+
+// UnexpectedTokenError is used to show that the source contains a token which can't be parsed.
+type UnexpectedTokenError struct {
+	Tok token.Token
+}
+
+func (u UnexpectedTokenError) Error() string {
+	return fmt.Sprintf("unexpected token %q at position %s", u.Tok.Origin, u.Tok.Start)
+}
diff --git a/engines/yayamls/parser/parser.go b/engines/yayamls/parser/parser.go
index 909d4d1..532879d 100644
--- a/engines/yayamls/parser/parser.go
+++ b/engines/yayamls/parser/parser.go
@@ -144,6 +144,10 @@ func (p *parser) Parse() (ast.Node, error) {
 	p.next()
 	p.startOfLine = true
 	result := p.parseStream()
+	if p.tok.Type != token.EOFType && !p.hasErrors() {
+		// the rest of the source can't be parsed
+		p.appendError(UnexpectedTokenError{Tok: p.tok})
+	}
 	return result, p.error()
 }
 
-- 
2.43.0


From 0eef497988590de7befd8b19970e596ba86fb914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:16 +0000
Subject: [PATCH 24/73] fix: merging of nested mappings and lists of mappings
 in Any

---
 engines/goyaml/decode/any.go  | 50 ++++++++++++++++++++++++-----------
 engines/yayamls/decode/any.go | 50 ++++++++++++++++++++++++-----------
 2 files changed, 68 insertions(+), 32 deletions(-)

diff --git a/engines/goyaml/decode/any.go b/engines/goyaml/decode/any.go
index 1d2a742..36c0e87 100644
--- a/engines/goyaml/decode/any.go
+++ b/engines/goyaml/decode/any.go
@@ -14,8 +14,7 @@ type anyBuilder struct {
 	extractString bool
 	stringValue   string
 
-	extractMergeMap bool
-	mergeMap        map[string]any
+	mergeSources []map[string]any
 
 	// dereferenced contains anchored nodes which are being visited through aliases
 	dereferenced map[*yaml.Node]struct{}
@@ -103,25 +102,45 @@ func (a *anyBuilder) visitMappingNode(n *yaml.Node) {
 		a.processMappingPair(key, value)
 
 		if !a.hasErrors() {
-			if a.mergeMap == nil {
+			if a.mergeSources == nil {
 				m[a.stringValue] = a.value
 			} else {
-				mergeMaps(m, a.mergeMap)
-				a.mergeMap = nil
+				for _, source := range a.mergeSources {
+					mergeMaps(m, source)
+				}
+				a.mergeSources = nil
 			}
 		}
 	}
 
-	switch {
-	case a.extractMergeMap:
-		a.mergeMap = m
-	case a.extractString:
+	if a.extractString {
 		a.stringValue = fmt.Sprint(m)
-	default:
+	} else {
 		a.value = m
 	}
 }
 
+// mergeSourcesOf returns mappings to merge if the value of merge key is a mapping or
+// a sequence of mappings.
+func mergeSourcesOf(value any) []map[string]any {
+	switch v := value.(type) {
+	case map[string]any:
+		return []map[string]any{v}
+	case []any:
+		sources := make([]map[string]any, 0, len(v))
+		for _, elem := range v {
+			m, ok := elem.(map[string]any)
+			if !ok {
+				return nil
+			}
+			sources = append(sources, m)
+		}
+		return sources
+	default:
+		return nil
+	}
+}
+
 func mergeMaps(dst, src map[string]any) {
 	for k, v := range src {
 		if _, ok := dst[k]; !ok {
@@ -131,22 +150,21 @@ func mergeMaps(dst, src map[string]any) {
 }
 
 func (a *anyBuilder) processMappingPair(keyNode, valueNode *yaml.Node) {
-	savedExtractString, savedExtractMergeMap := a.extractString, a.extractMergeMap
+	savedExtractString := a.extractString
 
 	a.extractString = true
 	a.visitNode(keyNode)
-	if a.stringValue == schema.MergeKey {
-		a.extractMergeMap = true
-	}
-
 	key := a.stringValue
 	a.extractString = false
 
 	a.visitNode(valueNode)
 
+	if key == schema.MergeKey {
+		a.mergeSources = mergeSourcesOf(a.value)
+	}
+
 	a.stringValue = key
 	a.extractString = savedExtractString
-	a.extractMergeMap = savedExtractMergeMap
 }
 
 func (a *anyBuilder) visitScalarNode(n *yaml.Node) {
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index 0df677a..d9921bb 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -14,8 +14,7 @@ type anyBuilder struct {
 	extractString bool
 	stringValue   string
 
-	extractMergeMap bool
-	mergeMap        map[string]any
+	mergeSources []map[string]any
 
 	anchors *anchorsKeeper
 	// dereferenced contains anchored nodes which are being visited through aliases
@@ -100,24 +99,44 @@ func (a *anyBuilder) VisitMappingNode(n *ast.MappingNode) {
 	for _, entry := range entries {
 		a.visitNode(entry)
 		if !a.hasErrors() {
-			if a.mergeMap == nil {
+			if a.mergeSources == nil {
 				m[a.stringValue] = a.value
 			} else {
-				mergeMaps(m, a.mergeMap)
-				a.mergeMap = nil
+				for _, source := range a.mergeSources {
+					mergeMaps(m, source)
+				}
+				a.mergeSources = nil
 			}
 		}
 	}
-	switch {
-	case a.extractMergeMap:
-		a.mergeMap = m
-	case a.extractString:
+	if a.extractString {
 		a.stringValue = fmt.Sprint(m)
-	default:
+	} else {
 		a.value = m
 	}
 }
 
+// mergeSourcesOf returns mappings to merge if the value of merge key is a mapping or
+// a sequence of mappings.
+func mergeSourcesOf(value any) []map[string]any {
+	switch v := value.(type) {
+	case map[string]any:
+		return []map[string]any{v}
+	case []any:
+		sources := make([]map[string]any, 0, len(v))
+		for _, elem := range v {
+			m, ok := elem.(map[string]any)
+			if !ok {
+				return nil
+			}
+			sources = append(sources, m)
+		}
+		return sources
+	default:
+		return nil
+	}
+}
+
 func mergeMaps(dst, src map[string]any) {
 	for k, v := range src {
 		if _, ok := dst[k]; !ok {
@@ -127,22 +146,21 @@ func mergeMaps(dst, src map[string]any) {
 }
 
 func (a *anyBuilder) VisitMappingEntryNode(n *ast.MappingEntryNode) {
-	savedExtractString, savedExtractMergeMap := a.extractString, a.extractMergeMap
+	savedExtractString := a.extractString
 
 	a.extractString = true
 	a.visitNode(n.Key())
-	if a.stringValue == schema.MergeKey {
-		a.extractMergeMap = true
-	}
-
 	key := a.stringValue
 	a.extractString = false
 
 	a.visitNode(n.Value())
 
+	if key == schema.MergeKey {
+		a.mergeSources = mergeSourcesOf(a.value)
+	}
+
 	a.stringValue = key
 	a.extractString = savedExtractString
-	a.extractMergeMap = savedExtractMergeMap
 }
 
 func (a *anyBuilder) VisitNullNode(*ast.NullNode) {
-- 
2.43.0


From 539ab18728870bcc4a984dcc3cb714bd7e32eb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:40 +0000
Subject: [PATCH 25/73] fix: single pair of flow sequence is read as a mapping

---
 engines/yayamls/decode/any.go      |  2 +-
 engines/yayamls/decode/iterator.go | 19 ++++++++++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index d9921bb..ceb2f4d 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -71,7 +71,7 @@ func (a *anyBuilder) VisitTextNode(n *ast.TextNode) {
 }
 
 func (a *anyBuilder) VisitSequenceNode(n *ast.SequenceNode) {
-	entries := n.Entries()
+	entries := sequenceEntries(n)
 	s := make([]any, 0, len(entries))
 
 	savedExtractString := a.extractString
diff --git a/engines/yayamls/decode/iterator.go b/engines/yayamls/decode/iterator.go
index aa0ac1f..bd9c36e 100644
--- a/engines/yayamls/decode/iterator.go
+++ b/engines/yayamls/decode/iterator.go
@@ -32,10 +32,27 @@ func newStreamIterator(s *ast.StreamNode) nodeIterator {
 func newSequenceIterator(s *ast.SequenceNode) nodeIterator {
 	return &nodeIteratorImpl{
 		i:     0,
-		nodes: s.Entries(),
+		nodes: sequenceEntries(s),
 	}
 }
 
+// sequenceEntries returns sequence entries representing single pairs of flow sequences as mappings.
+func sequenceEntries(s *ast.SequenceNode) []ast.Node {
+	entries := s.Entries()
+	var copied bool
+	for i, entry := range entries {
+		if entry == nil || entry.Type() != ast.MappingEntryType {
+			continue
+		}
+		if !copied {
+			entries = append([]ast.Node(nil), entries...)
+			copied = true
+		}
+		entries[i] = ast.NewMappingNode([]ast.Node{entry})
+	}
+	return entries
+}
+
 func newMappingIterator(m *ast.MappingNode) nodeIterator {
 	return &nodeIteratorImpl{
 		i:     0,
-- 
2.43.0


From 4be8333c7b100624d709d9f0cae33c049988d804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:52 +0000
Subject: [PATCH 26/73] fix: comparator of AST tells collections of different
 sizes apart

---
 engines/yayamls/ast/astcmp/comparator.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/engines/yayamls/ast/astcmp/comparator.go b/engines/yayamls/ast/astcmp/comparator.go
index 7496c50..016a636 100644
--- a/engines/yayamls/ast/astcmp/comparator.go
+++ b/engines/yayamls/ast/astcmp/comparator.go
@@ -62,6 +62,15 @@ func (c *Comparator) compareNodes(first, second ast.Node) bool {
 			return f.Text() == sf.Text()
 		}
 		return false
+	case *ast.StreamNode:
+		sf, ok := second.(*ast.StreamNode)
+		return ok && len(f.Documents()) == len(sf.Documents())
+	case *ast.SequenceNode:
+		sf, ok := second.(*ast.SequenceNode)
+		return ok && len(f.Entries()) == len(sf.Entries())
+	case *ast.MappingNode:
+		sf, ok := second.(*ast.MappingNode)
+		return ok && len(f.Entries()) == len(sf.Entries())
 	default:
 		return true
 	}
-- 
2.43.0


From 6ccfdefa31093992a3a1f57fdecd08a4fe790681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:01 +0000
Subject: [PATCH 27/73] fix: generated decoder of a struct stops at null

---
 generator/decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator/decoder.go b/generator/decoder.go
index fefce15..2985c79 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -76,6 +76,7 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	fmt.Fprintln(g.out, "  if in.TryNull() {")
 	fmt.Fprintln(g.out, "    var zeroValue "+tname)
 	fmt.Fprintln(g.out, "    *out = zeroValue")
+	fmt.Fprintln(g.out, "    return")
 	fmt.Fprintln(g.out, "  }")
 	fmt.Fprintln(g.out)
 
-- 
2.43.0


From 973675b57f1ecc158f71031899a43360a6113cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:01 +0000
Subject: [PATCH 28/73] fix: generated decoder of an array skips the extra
 elements

---
 generator/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/decoder.go b/generator/decoder.go
index 2985c79..36c421d 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -242,6 +242,9 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 			}
 			fmt.Fprintln(g.out, whitespace+"    "+iterVar+"++")
 			fmt.Fprintln(g.out, whitespace+"  }")
+			fmt.Fprintln(g.out, whitespace+"  for "+arrayStateVar+".HasUnprocessedItems() {")
+			fmt.Fprintln(g.out, whitespace+"    in.Skip()")
+			fmt.Fprintln(g.out, whitespace+"  }")
 			fmt.Fprintln(g.out, whitespace+"}")
 		}
 	case reflect.Struct:
-- 
2.43.0


From c334df046f73eec95acca457be974157b473f315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:01 +0000
Subject: [PATCH 29/73] fix: generated code for arrays of bytes compiles

---
 generator/decoder.go | 2 +-
 generator/encoder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 36c421d..575947a 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -226,7 +226,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 
 		if elem.Kind() == reflect.Uint8 && elem.Name() == "uint8" {
 			fmt.Fprintln(g.out, whitespace+"if !in.TryNull() {")
-			fmt.Fprintln(g.out, whitespace+"  copy("+outArg+", []byte(in.String()))")
+			fmt.Fprintln(g.out, whitespace+"  copy(("+outArg+")[:], in.String())")
 			fmt.Fprintln(g.out, whitespace+"}")
 		} else {
 			arrayStateVar := g.generateVarName("SeqState")
diff --git a/generator/encoder.go b/generator/encoder.go
index 49a9bfa..bb0df59 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -245,7 +245,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 		elem := t.Elem()
 
 		if elem.Kind() == reflect.Uint8 && elem.Name() == "uint8" {
-			fmt.Fprintln(g.out, whitespace+"out.InsertString(string("+inArg+"[:]))")
+			fmt.Fprintln(g.out, whitespace+"out.InsertString(string(("+inArg+")[:]))")
 		} else {
 			iVar := g.generateVarName()
 			fmt.Fprintln(g.out, whitespace+"out.StartSequence()")
-- 
2.43.0


From 5d62ee0a7bea7adbf9f80411c589d3794af2570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:01 +0000
Subject: [PATCH 30/73] fix: quote names of fields in generated code

---
 generator/decoder.go | 2 +-
 generator/encoder.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 575947a..38ff514 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -128,7 +128,7 @@ func (g *Generator) generateStructFieldDecoder(f reflect.StructField) error {
 		name = tags.name
 	}
 
-	fmt.Fprintln(g.out, "    case \""+name+"\":")
+	fmt.Fprintln(g.out, "    case "+strconv.Quote(name)+":")
 	return g.generateDecoderBody(f.Type, "out."+f.Name, tags, 6, true)
 }
 
diff --git a/generator/encoder.go b/generator/encoder.go
index bb0df59..ffeb555 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -4,6 +4,7 @@ import (
 	"encoding"
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"github.com/KSpaceer/yamly"
@@ -122,7 +123,7 @@ func (g *Generator) generateStructFieldEncoder(f reflect.StructField) error {
 		fmt.Fprintln(g.out, "  {")
 	}
 
-	fmt.Fprintln(g.out, "    out.InsertString(\""+name+"\")")
+	fmt.Fprintln(g.out, "    out.InsertString("+strconv.Quote(name)+")")
 	if err := g.generateEncoderBody(f.Type, "in."+f.Name, tags, 6, canBeNull); err != nil {
 		return err
 	}
-- 
2.43.0


From 075e3a3b8429b74e801ba2f3da90a697dddc77bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:02 +0000
Subject: [PATCH 31/73] fix: unknown fields with null values are reported when
 disallowed

---
 generator/decoder.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 38ff514..7fb91e9 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -97,6 +97,9 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	fmt.Fprintln(g.out, "  for structMappingState.HasUnprocessedItems() {")
 	fmt.Fprintln(g.out, "    key := in.String()")
 	fmt.Fprintln(g.out, "    if in.TryNull() {")
+	if g.disallowUnknownFields {
+		g.generateUnknownNullFieldCheck(fields)
+	}
 	fmt.Fprintln(g.out, "      continue")
 	fmt.Fprintln(g.out, "    }")
 	fmt.Fprintln(g.out, "    switch key {")
@@ -117,16 +120,36 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	return nil
 }
 
+// generateUnknownNullFieldCheck generates reporting of unknown fields which have null value.
+func (g *Generator) generateUnknownNullFieldCheck(fields []reflect.StructField) {
+	fmt.Fprintln(g.out, "      switch key {")
+	for _, f := range fields {
+		tags := parseTags(f.Tag)
+		if tags.omitField {
+			continue
+		}
+		fmt.Fprintln(g.out, "      case "+strconv.Quote(fieldKey(f, tags))+":")
+	}
+	fmt.Fprintln(g.out, "      default:")
+	fmt.Fprintln(g.out, "        in.AddError(&yamly.UnknownFieldError{Field: key})")
+	fmt.Fprintln(g.out, "      }")
+}
+
+// fieldKey returns a key of the field in YAML mapping.
+func fieldKey(f reflect.StructField, tags fieldTags) string {
+	if tags.name != "" {
+		return tags.name
+	}
+	return f.Name
+}
+
 func (g *Generator) generateStructFieldDecoder(f reflect.StructField) error {
 	tags := parseTags(f.Tag)
 
 	if tags.omitField {
 		return nil
 	}
-	name := f.Name
-	if tags.name != "" {
-		name = tags.name
-	}
+	name := fieldKey(f, tags)
 
 	fmt.Fprintln(g.out, "    case "+strconv.Quote(name)+":")
 	return g.generateDecoderBody(f.Type, "out."+f.Name, tags, 6, true)
-- 
2.43.0


From f57b9aa21bf5dc787688dd66bb6f18457e904540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:31 +0000
Subject: [PATCH 32/73] fix: generated code for fields of interface types

---
 engines/goyaml/engine.go  |  7 +++++--
 engines/yayamls/engine.go |  8 +++++---
 generator/decoder.go      | 10 +++++++---
 generator/encoder.go      |  8 ++++++--
 4 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/engines/goyaml/engine.go b/engines/goyaml/engine.go
index f2fc3f7..2c58c00 100644
--- a/engines/goyaml/engine.go
+++ b/engines/goyaml/engine.go
@@ -87,11 +87,14 @@ func (engineGenerator) MarshalersImplementationCheck(
 
 func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer, outArg string, indent int) error {
 	whitespace := strings.Repeat(" ", indent)
-	fmt.Fprintln(dst, whitespace+"if m, ok := "+outArg+".(yaml.Unmarshaler); ok {")
+	fmt.Fprintln(dst, whitespace+"if m, ok := ("+outArg+").(yaml.Unmarshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-	fmt.Fprintln(dst, whitespace+"    in.AddError(m.UnmarshalYAML(extIn.Node())")
+	fmt.Fprintln(dst, whitespace+"    if node := extIn.Node(); node != nil {")
+	fmt.Fprintln(dst, whitespace+"      in.AddError(m.UnmarshalYAML(node))")
+	fmt.Fprintln(dst, whitespace+"    }")
 	fmt.Fprintln(dst, whitespace+"  } else {")
 	fmt.Fprintln(dst, whitespace+"    "+outArg+" = in.Any()")
+	fmt.Fprintln(dst, whitespace+"  }")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	fmt.Fprintln(dst, whitespace+"  "+outArg+" = in.Any()")
 	fmt.Fprintln(dst, whitespace+"}")
diff --git a/engines/yayamls/engine.go b/engines/yayamls/engine.go
index 7c0a700..7c66987 100644
--- a/engines/yayamls/engine.go
+++ b/engines/yayamls/engine.go
@@ -87,7 +87,7 @@ func (engineGenerator) MarshalersImplementationCheck(
 
 func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer, outArg string, indent int) error {
 	whitespace := strings.Repeat(" ", indent)
-	fmt.Fprintln(dst, whitespace+"if m, ok := "+outArg+".(yayamls.Unmarshaler); ok {")
+	fmt.Fprintln(dst, whitespace+"if m, ok := ("+outArg+").(yayamls.Unmarshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  in.AddError(m.UnmarshalYAML(in.Raw()))")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	fmt.Fprintln(dst, whitespace+"  "+outArg+" = in.Any()")
@@ -97,11 +97,13 @@ func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer,
 
 func (engineGenerator) GenerateMarshalEmptyInterfaceAssertions(dst io.Writer, inArg string, indent int) error {
 	whitespace := strings.Repeat(" ", indent)
-	fmt.Fprintln(dst, whitespace+"if m, ok := "+inArg+".(yayamls.Marshaler); ok {")
+	fmt.Fprintln(dst, whitespace+"if m, ok := ("+inArg+").(yayamls.Marshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  out.InsertRaw(m.MarshalYAML())")
+	fmt.Fprintln(dst, whitespace+"} else if "+inArg+" == nil {")
+	fmt.Fprintln(dst, whitespace+"  out.InsertNull()")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	// TODO: add reflect-based marshaler for yayamls
-	fmt.Fprintln(dst, whitespace+"  out.InsertRaw(nil, nil)")
+	fmt.Fprintln(dst, whitespace+"  out.InsertRaw(nil, yamly.ErrMarshalerImplementation)")
 	fmt.Fprintln(dst, whitespace+"}")
 	return nil
 }
diff --git a/generator/decoder.go b/generator/decoder.go
index 7fb91e9..90f98d0 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -334,7 +334,11 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementsUnmarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"_ = "+outArg+".UnmarshalYamly(in)")
+				fmt.Fprintln(g.out, whitespace+"if "+outArg+" == nil {")
+				fmt.Fprintln(g.out, whitespace+"  in.AddError(yamly.ErrUnmarshalerImplementation)")
+				fmt.Fprintln(g.out, whitespace+"} else {")
+				fmt.Fprintln(g.out, whitespace+"  ("+outArg+").UnmarshalYamly(in)")
+				fmt.Fprintln(g.out, whitespace+"}")
 			} else if implResult, err := g.engineGen.UnmarshalersImplementationCheck(g.out, t, outArg, indent); err != nil {
 				return err
 			} else {
@@ -348,8 +352,8 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 				}
 			}
 		} else {
-			fmt.Fprintln(g.out, whitespace+"if m, ok := "+outArg+".(yamly.UnmarshalerYamly); ok {")
-			fmt.Fprintln(g.out, whitespace+"  in.AddError(m.UnmarshalYamly(in))")
+			fmt.Fprintln(g.out, whitespace+"if m, ok := ("+outArg+").(yamly.UnmarshalerYamly); ok {")
+			fmt.Fprintln(g.out, whitespace+"  m.UnmarshalYamly(in)")
 			fmt.Fprintln(g.out, whitespace+"} else {")
 			if err := g.engineGen.GenerateUnmarshalEmptyInterfaceAssertions(g.out, outArg, indent+indentDelta); err != nil {
 				return err
diff --git a/generator/encoder.go b/generator/encoder.go
index ffeb555..c56830c 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -316,7 +316,11 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementMarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"_ = "+inArg+".MarshalYamly(out)")
+				fmt.Fprintln(g.out, whitespace+"if "+inArg+" == nil {")
+				fmt.Fprintln(g.out, whitespace+"  out.InsertNull()")
+				fmt.Fprintln(g.out, whitespace+"} else {")
+				fmt.Fprintln(g.out, whitespace+"  ("+inArg+").MarshalYamly(out)")
+				fmt.Fprintln(g.out, whitespace+"}")
 			} else if implResult, err := g.engineGen.MarshalersImplementationCheck(g.out, t, inArg, indent); err != nil {
 				return err
 			} else {
@@ -330,7 +334,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 				}
 			}
 		} else {
-			fmt.Fprintln(g.out, whitespace+"if m, ok := "+inArg+".(yamly.MarshalerYamly) {")
+			fmt.Fprintln(g.out, whitespace+"if m, ok := ("+inArg+").(yamly.MarshalerYamly); ok {")
 			fmt.Fprintln(g.out, whitespace+"  m.MarshalYamly(out)")
 			fmt.Fprintln(g.out, whitespace+"} else {")
 			if err := g.engineGen.GenerateMarshalEmptyInterfaceAssertions(g.out, inArg, indent+2); err != nil {
-- 
2.43.0


From ccb55ef2435fa1905889037a8f684592df9f2d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:31 +0000
Subject: [PATCH 33/73] fix: generated code for values and pointers with custom
 marshalers

---
 engines/goyaml/engine.go  | 8 +++++---
 engines/yayamls/engine.go | 2 +-
 generator/decoder.go      | 1 +
 generator/encoder.go      | 5 +++--
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/engines/goyaml/engine.go b/engines/goyaml/engine.go
index 2c58c00..f896c2e 100644
--- a/engines/goyaml/engine.go
+++ b/engines/goyaml/engine.go
@@ -64,8 +64,10 @@ func (engineGenerator) UnmarshalersImplementationCheck(
 	if reflect.PtrTo(t).Implements(unmarshalIface) {
 		whitespace := strings.Repeat(" ", indent)
 		fmt.Fprintln(dst, whitespace+"if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-		fmt.Fprintln(dst, whitespace+"  in.AddError(("+outArg+").UnmarshalYAML(extIn.Node())")
-		fmt.Fprintln(dst, whitespace, "} else {")
+		fmt.Fprintln(dst, whitespace+"  if node := extIn.Node(); node != nil {")
+		fmt.Fprintln(dst, whitespace+"    in.AddError(("+outArg+").UnmarshalYAML(node))")
+		fmt.Fprintln(dst, whitespace+"  }")
+		fmt.Fprintln(dst, whitespace+"} else {")
 		return generator.ImplementationResultConditional, nil
 	}
 	return generator.ImplementationResultFalse, nil
@@ -79,7 +81,7 @@ func (engineGenerator) MarshalersImplementationCheck(
 ) (generator.ImplementationResult, error) {
 	marshalIface := reflect.TypeOf((*yaml.Marshaler)(nil)).Elem()
 	if reflect.PtrTo(t).Implements(marshalIface) {
-		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw(yaml.Marshal("+inArg+"))")
+		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw(yaml.Marshal(&"+inArg+"))")
 		return generator.ImplementationResultTrue, nil
 	}
 	return generator.ImplementationResultFalse, nil
diff --git a/engines/yayamls/engine.go b/engines/yayamls/engine.go
index 7c66987..c8aefce 100644
--- a/engines/yayamls/engine.go
+++ b/engines/yayamls/engine.go
@@ -79,7 +79,7 @@ func (engineGenerator) MarshalersImplementationCheck(
 ) (generator.ImplementationResult, error) {
 	marshalIface := reflect.TypeOf((*Marshaler)(nil)).Elem()
 	if reflect.PtrTo(t).Implements(marshalIface) {
-		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw("+inArg+".MarshalYAML())")
+		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw(("+inArg+").MarshalYAML())")
 		return generator.ImplementationResultTrue, nil
 	}
 	return generator.ImplementationResultFalse, nil
diff --git a/generator/decoder.go b/generator/decoder.go
index 90f98d0..215a832 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -188,6 +188,7 @@ func (g *Generator) generateDecoderBody(
 		unmarshalIface = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(unmarshalIface) {
 			fmt.Fprintln(g.out, whitespace+"in.AddError(("+outArg+").UnmarshalText([]byte(in.String())))")
+			fmt.Fprintln(g.out, finishingText)
 			return nil
 		}
 	}
diff --git a/generator/encoder.go b/generator/encoder.go
index c56830c..9cb47ae 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -165,7 +165,7 @@ func (g *Generator) generateEncoderBody(
 
 		marshalIface := reflect.TypeOf((*yamly.MarshalerYamly)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(marshalIface) {
-			fmt.Fprintln(g.out, whitespace+inArg+".MarshalYamly(out)")
+			fmt.Fprintln(g.out, whitespace+"("+inArg+").MarshalYamly(out)")
 			return nil
 		}
 
@@ -184,7 +184,8 @@ func (g *Generator) generateEncoderBody(
 
 		marshalIface = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(marshalIface) {
-			fmt.Fprintln(g.out, whitespace+"out.InsertRawText("+inArg+".MarshalText())")
+			fmt.Fprintln(g.out, whitespace+"out.InsertRawText(("+inArg+").MarshalText())")
+			fmt.Fprintln(g.out, finishingText)
 			return nil
 		}
 	}
-- 
2.43.0


From 5eea94a2c1ecae6376b4086729dc4065176f0d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:49 +0000
Subject: [PATCH 34/73] fix: pointers of embedded fields are allocated only if
 they are inlined

---
 generator/decoder.go   |  2 +-
 generator/generator.go | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 215a832..3b7db8a 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -82,7 +82,7 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 
 	for i := 0; i < t.NumField(); i++ {
 		f := t.Field(i)
-		if !f.Anonymous || f.Type.Kind() != reflect.Pointer {
+		if f.Type.Kind() != reflect.Pointer || !g.isInlined(f) {
 			continue
 		}
 		fmt.Fprintln(g.out, "  out."+f.Name+" = new("+g.extractTypeName(f.Type.Elem())+")")
diff --git a/generator/generator.go b/generator/generator.go
index 70e8497..7ae0829 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -397,8 +397,7 @@ func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, erro
 
 	for i := 0; i < t.NumField(); i++ {
 		f := t.Field(i)
-		tags := parseTags(f.Tag)
-		if !(f.Anonymous && g.inlineEmbedded && tags.name == "") && !tags.inline {
+		if !g.isInlined(f) {
 			continue
 		}
 
@@ -423,8 +422,7 @@ func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, erro
 
 	for i := 0; i < t.NumField(); i++ {
 		f := t.Field(i)
-		tags := parseTags(f.Tag)
-		if (f.Anonymous && g.inlineEmbedded && tags.name == "") || tags.inline {
+		if g.isInlined(f) {
 			continue
 		}
 
@@ -437,6 +435,12 @@ func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, erro
 	return mergeStructFields(embeddedFields, fields), nil
 }
 
+// isInlined tells if the fields of the field's type belong to mapping of the host struct.
+func (g *Generator) isInlined(f reflect.StructField) bool {
+	tags := parseTags(f.Tag)
+	return (f.Anonymous && g.inlineEmbedded && tags.name == "") || tags.inline
+}
+
 func mergeStructFields(firstFields, secondFields []reflect.StructField) []reflect.StructField {
 	fields := make([]reflect.StructField, 0, len(firstFields))
 	used := make(map[string]bool)
-- 
2.43.0


From a3a463e69d834debce5ac97db90f636e528c6049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:21 +0000
Subject: [PATCH 35/73] fix: inlining of named fields and of nil pointers

---
 generator/decoder.go   | 39 +++++++++++++++++++++++++++------------
 generator/encoder.go   | 16 ++++++++++------
 generator/generator.go | 38 +++++++++++++++++++++++++++++---------
 3 files changed, 66 insertions(+), 27 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 3b7db8a..5a6e52e 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -80,13 +80,7 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	fmt.Fprintln(g.out, "  }")
 	fmt.Fprintln(g.out)
 
-	for i := 0; i < t.NumField(); i++ {
-		f := t.Field(i)
-		if f.Type.Kind() != reflect.Pointer || !g.isInlined(f) {
-			continue
-		}
-		fmt.Fprintln(g.out, "  out."+f.Name+" = new("+g.extractTypeName(f.Type.Elem())+")")
-	}
+	g.generateInlinedPointers(t, "out.")
 
 	fields, err := g.getStructFields(t)
 	if err != nil {
@@ -120,15 +114,36 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	return nil
 }
 
+// generateInlinedPointers generates allocation of pointers to inlined structs.
+func (g *Generator) generateInlinedPointers(t reflect.Type, path string) {
+	for i := 0; i < t.NumField(); i++ {
+		f := t.Field(i)
+		if !g.isInlined(f) {
+			continue
+		}
+		ft := f.Type
+		if ft.Kind() == reflect.Pointer {
+			ft = ft.Elem()
+		}
+		if ft.Kind() != reflect.Struct {
+			continue
+		}
+		if f.Type.Kind() == reflect.Pointer {
+			fmt.Fprintln(g.out, "  "+path+f.Name+" = new("+g.extractTypeName(ft)+")")
+		}
+		g.generateInlinedPointers(ft, path+f.Name+".")
+	}
+}
+
 // generateUnknownNullFieldCheck generates reporting of unknown fields which have null value.
-func (g *Generator) generateUnknownNullFieldCheck(fields []reflect.StructField) {
+func (g *Generator) generateUnknownNullFieldCheck(fields []structField) {
 	fmt.Fprintln(g.out, "      switch key {")
 	for _, f := range fields {
 		tags := parseTags(f.Tag)
 		if tags.omitField {
 			continue
 		}
-		fmt.Fprintln(g.out, "      case "+strconv.Quote(fieldKey(f, tags))+":")
+		fmt.Fprintln(g.out, "      case "+strconv.Quote(fieldKey(f.StructField, tags))+":")
 	}
 	fmt.Fprintln(g.out, "      default:")
 	fmt.Fprintln(g.out, "        in.AddError(&yamly.UnknownFieldError{Field: key})")
@@ -140,16 +155,16 @@ func fieldKey(f reflect.StructField, tags fieldTags) string {
 	if tags.name != "" {
 		return tags.name
 	}
-	return f.Name
+	return f.Name[strings.LastIndexByte(f.Name, '.')+1:]
 }
 
-func (g *Generator) generateStructFieldDecoder(f reflect.StructField) error {
+func (g *Generator) generateStructFieldDecoder(f structField) error {
 	tags := parseTags(f.Tag)
 
 	if tags.omitField {
 		return nil
 	}
-	name := fieldKey(f, tags)
+	name := fieldKey(f.StructField, tags)
 
 	fmt.Fprintln(g.out, "    case "+strconv.Quote(name)+":")
 	return g.generateDecoderBody(f.Type, "out."+f.Name, tags, 6, true)
diff --git a/generator/encoder.go b/generator/encoder.go
index 9cb47ae..c300277 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -105,20 +105,24 @@ func (g *Generator) generateStructEncoder(t reflect.Type) error {
 	return nil
 }
 
-func (g *Generator) generateStructFieldEncoder(f reflect.StructField) error {
+func (g *Generator) generateStructFieldEncoder(f structField) error {
 	tags := parseTags(f.Tag)
 
 	if tags.omitField {
 		return nil
 	}
-	name := f.Name
-	if tags.name != "" {
-		name = tags.name
-	}
+	name := fieldKey(f.StructField, tags)
 	canBeNull := !(g.omitempty || tags.omitempty)
 
+	conditions := make([]string, 0, len(f.pointers)+1)
+	for _, pointer := range f.pointers {
+		conditions = append(conditions, "in."+pointer+" != nil")
+	}
 	if !canBeNull {
-		fmt.Fprintln(g.out, "  if "+g.generateNotEmptyCheck(f.Type, "in."+f.Name)+" {")
+		conditions = append(conditions, g.generateNotEmptyCheck(f.Type, "in."+f.Name))
+	}
+	if len(conditions) > 0 {
+		fmt.Fprintln(g.out, "  if "+strings.Join(conditions, " && ")+" {")
 	} else {
 		fmt.Fprintln(g.out, "  {")
 	}
diff --git a/generator/generator.go b/generator/generator.go
index 7ae0829..5ec4cad 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -385,14 +385,21 @@ func joinFunctionNameParts(keepFirst bool, parts ...string) string {
 	return buf.String()
 }
 
-func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, error) {
+// structField is a field of struct's mapping. Name of the field is an expression to access it.
+type structField struct {
+	reflect.StructField
+	// pointers to inlined structs that contain the field
+	pointers []string
+}
+
+func (g *Generator) getStructFields(t reflect.Type) ([]structField, error) {
 	if t.Kind() != reflect.Struct {
 		return nil, fmt.Errorf("expected struct, but got %s", t)
 	}
 
 	var (
-		embeddedFields []reflect.StructField
-		fields         []reflect.StructField
+		embeddedFields []structField
+		fields         []structField
 	)
 
 	for i := 0; i < t.NumField(); i++ {
@@ -411,11 +418,23 @@ func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, erro
 			if err != nil {
 				return nil, fmt.Errorf("error processing embedded field: %w", err)
 			}
+			for i := range fs {
+				for j := range fs[i].pointers {
+					fs[i].pointers[j] = f.Name + "." + fs[i].pointers[j]
+				}
+				if f.Type.Kind() == reflect.Pointer {
+					fs[i].pointers = append([]string{f.Name}, fs[i].pointers...)
+				}
+				if !f.Anonymous {
+					// only fields of embedded structs are promoted
+					fs[i].Name = f.Name + "." + fs[i].Name
+				}
+			}
 			embeddedFields = mergeStructFields(embeddedFields, fs)
 		} else if (t.Kind() >= reflect.Bool && t.Kind() <= reflect.Complex128) || t.Kind() == reflect.String {
 			// kind is basic
 			if strings.Contains(f.Name, ".") || unicode.IsUpper([]rune(f.Name)[0]) {
-				fields = append(fields, f)
+				fields = append(fields, structField{StructField: f})
 			}
 		}
 	}
@@ -428,7 +447,7 @@ func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, erro
 
 		c := []rune(f.Name)[0]
 		if unicode.IsUpper(c) {
-			fields = append(fields, f)
+			fields = append(fields, structField{StructField: f})
 		}
 	}
 
@@ -441,16 +460,17 @@ func (g *Generator) isInlined(f reflect.StructField) bool {
 	return (f.Anonymous && g.inlineEmbedded && tags.name == "") || tags.inline
 }
 
-func mergeStructFields(firstFields, secondFields []reflect.StructField) []reflect.StructField {
-	fields := make([]reflect.StructField, 0, len(firstFields))
-	used := make(map[string]bool)
+func mergeStructFields(firstFields, secondFields []structField) []structField {
+	fields := make([]structField, 0, len(firstFields))
+	used, usedKeys := make(map[string]bool), make(map[string]bool)
 	for _, f := range secondFields {
 		used[f.Name] = true
+		usedKeys[fieldKey(f.StructField, parseTags(f.Tag))] = true
 		fields = append(fields, f)
 	}
 
 	for _, f := range firstFields {
-		if !used[f.Name] {
+		if !used[f.Name] && !usedKeys[fieldKey(f.StructField, parseTags(f.Tag))] {
 			fields = append(fields, f)
 		}
 	}
-- 
2.43.0


From dceca8b4d438496e591e389af487c666453a9373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:41 +0000
Subject: [PATCH 36/73] fix: failed generation does not leave the stub in the
 package

---
 generator/bootstrap/generator.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/generator/bootstrap/generator.go b/generator/bootstrap/generator.go
index 53ebd6f..6532645 100644
--- a/generator/bootstrap/generator.go
+++ b/generator/bootstrap/generator.go
@@ -117,7 +117,23 @@ func (g *Generator) generateMain() (string, error) {
 	return dst, os.Rename(src, dst)
 }
 
-func (g *Generator) Generate() error {
+func (g *Generator) Generate() (err error) {
+	previous, readErr := os.ReadFile(g.OutputName)
+	if readErr != nil && !os.IsNotExist(readErr) {
+		return readErr
+	}
+	defer func() {
+		if err == nil {
+			return
+		}
+		// do not leave the stub in the package
+		if readErr != nil {
+			os.Remove(g.OutputName)
+		} else if restoreErr := os.WriteFile(g.OutputName, previous, 0o600); restoreErr != nil {
+			err = fmt.Errorf("%w (failed to restore %s: %v)", err, g.OutputName, restoreErr)
+		}
+	}()
+
 	if err := g.generateStub(); err != nil {
 		return fmt.Errorf("failed to generate stub: %w", err)
 	}
-- 
2.43.0


From 299927b0089c30060e8ac6e2bda0541774e014be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:05 +0000
Subject: [PATCH 37/73] fix: plain keys of block mappings may contain flow
 indicators

---
 engines/yayamls/parser/flow.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index b0492af..8123277 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -1104,9 +1104,9 @@ func (p *parser) parsePlainFirst(ctx context, buf *bytes.Buffer) ast.Node {
 
 func isPlainSafeToken(tok token.Token, ctx context) bool {
 	switch ctx {
-	case flowInContext, flowOutContext:
+	case flowInContext, flowOutContext, blockKeyContext:
 		return tok.Type == token.StringType
-	case blockKeyContext, flowKeyContext:
+	case flowKeyContext:
 		return tok.Type == token.StringType && tok.ConformsCharSet(yamlchar.PlainSafeCharSetType)
 	default:
 		return false
-- 
2.43.0


From a06b648f246ef2914698057758249865310e1a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:54 +0000
Subject: [PATCH 38/73] fix: flow collections and properties adjacent to the
 mapping value indicator

---
 engines/yayamls/lexer/context.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index b623a9b..6951910 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -364,9 +364,7 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		tok.Origin = string([]rune{r})
 		return tok, true
 	case yamlchar.SingleQuoteCharacter:
-		if t.lookbehind(func(tok token.Token) bool {
-			return mayPrecedeWordInFlow(tok) || tok.Type == token.MappingValueType
-		}) {
+		if t.lookbehind(mayPrecedeWordInFlow) {
 			c.switchContext(singleQuoteContextType)
 			tok.End = t.pos
 			tok.Type = token.SingleQuoteType
@@ -374,9 +372,7 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.DoubleQuoteCharacter:
-		if t.lookbehind(func(tok token.Token) bool {
-			return mayPrecedeWordInFlow(tok) || tok.Type == token.MappingValueType
-		}) {
+		if t.lookbehind(mayPrecedeWordInFlow) {
 			c.switchContext(doubleQuoteContextType)
 			tok.End = t.pos
 			tok.Type = token.DoubleQuoteType
@@ -411,7 +407,7 @@ func isStartOfLine(tok token.Token) bool {
 }
 
 func mayPrecedeWordInFlow(tok token.Token) bool {
-	return token.MayPrecedeWord(tok) || token.IsOpeningFlowIndicator(tok)
+	return token.MayPrecedeWord(tok) || token.IsOpeningFlowIndicator(tok) || tok.Type == token.MappingValueType
 }
 
 func (c *context) commentMatching(t *Tokenizer, r rune) (token.Token, bool) {
-- 
2.43.0


From 6741cc178a38364e41da3c130e3b1df7ccd47758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:23 +0000
Subject: [PATCH 39/73] fix: escaped line breaks after text in double quoted
 scalars

---
 engines/yayamls/lexer/context.go | 9 +++++++++
 engines/yayamls/parser/flow.go   | 1 +
 2 files changed, 10 insertions(+)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 6951910..ecf0f5d 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -464,6 +464,15 @@ func (c *context) doubleQuoteMatching(t *Tokenizer, r rune) (token.Token, bool)
 	switch r {
 	case yamlchar.EscapeCharacter:
 		if !c.escaped {
+			if t.lookahead(1, func(runes []rune) bool {
+				return yamlchar.IsLineBreakChar(runes[0])
+			}) {
+				// escaped line break
+				tok.End = t.pos
+				tok.Type = token.StringType
+				tok.Origin = string([]rune{r})
+				return tok, true
+			}
 			escaped = true
 		}
 	case yamlchar.SpaceCharacter, yamlchar.TabCharacter:
diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 8123277..33c95da 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -296,6 +296,7 @@ func (p *parser) parseDoubleEscaped(ind *indentation, buf *bytes.Buffer) ast.Nod
 		p.setCheckpoint()
 		savedLen := buf.Len()
 		if !ast.ValidNode(p.parseEmpty(ind, flowInContext, buf)) {
+			p.rollback()
 			buf.Truncate(savedLen)
 			break
 		}
-- 
2.43.0


From ba8568c9d4c9d200509930381ead30d3b7162bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:43 +0000
Subject: [PATCH 40/73] fix: white space before line breaks is not a part of
 quoted scalars

---
 engines/yayamls/parser/flow.go | 51 +++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 33c95da..48dea9e 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -186,11 +186,7 @@ func (p *parser) parseDoubleMultiLine(ind *indentation) ast.Node {
 		return ast.NewInvalidNode()
 	}
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.DoubleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		p.writeDoubleQuoted(buf)
-		p.next()
-	}
+	p.writeDoubleQuotedLine(buf)
 
 	savedLen := buf.Len()
 	p.setCheckpoint()
@@ -231,11 +227,7 @@ func (p *parser) parseDoubleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 	p.writeDoubleQuoted(buf)
 	p.next()
 
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.DoubleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		p.writeDoubleQuoted(buf)
-		p.next()
-	}
+	p.writeDoubleQuotedLine(buf)
 
 	p.setCheckpoint()
 	savedLen = buf.Len()
@@ -362,11 +354,7 @@ func (p *parser) parseSingleMultiLine(ind *indentation) ast.Node {
 		return ast.NewInvalidNode()
 	}
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.SingleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		p.writeSingleQuoted(buf)
-		p.next()
-	}
+	p.writeSingleQuotedLine(buf)
 
 	savedLen := buf.Len()
 	p.setCheckpoint()
@@ -405,11 +393,7 @@ func (p *parser) parseSingleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 	p.writeSingleQuoted(buf)
 	p.next()
 
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.SingleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		p.writeSingleQuoted(buf)
-		p.next()
-	}
+	p.writeSingleQuotedLine(buf)
 
 	p.setCheckpoint()
 	savedLen = buf.Len()
@@ -437,6 +421,33 @@ func (p *parser) writeSingleQuoted(buf *bytes.Buffer) {
 	p.writeQuoted(buf, yamlchar.ConvertFromYAMLSingleQuotedString)
 }
 
+// writeDoubleQuotedLine writes the rest of line of double quoted text.
+func (p *parser) writeDoubleQuotedLine(buf *bytes.Buffer) {
+	p.writeQuotedLine(buf, yamlchar.DoubleQuotedCharSetType, p.writeDoubleQuoted)
+}
+
+// writeSingleQuotedLine writes the rest of line of single quoted text.
+func (p *parser) writeSingleQuotedLine(buf *bytes.Buffer) {
+	p.writeQuotedLine(buf, yamlchar.SingleQuotedCharSetType, p.writeSingleQuoted)
+}
+
+// writeQuotedLine writes the rest of line of quoted text. White space preceding the line break
+// is not a part of the text.
+func (p *parser) writeQuotedLine(buf *bytes.Buffer, cst yamlchar.CharSetType, write func(*bytes.Buffer)) {
+	textLen := buf.Len()
+	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(cst)) || token.IsWhiteSpace(p.tok) {
+		isText := p.tok.Type == token.StringType
+		write(buf)
+		if isText {
+			textLen = buf.Len()
+		}
+		p.next()
+	}
+	if p.tok.Type == token.LineBreakType {
+		buf.Truncate(textLen)
+	}
+}
+
 func (p *parser) writeQuoted(buf *bytes.Buffer, unquote func(string) (string, error)) {
 	text := p.tok.Origin
 	if p.unescape {
-- 
2.43.0


From cdbf6fb20238e52a07f55a2eb5525c695dbcc310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:53 +0000
Subject: [PATCH 41/73] fix: indicators after the byte order mark

---
 engines/yayamls/token/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/yayamls/token/token.go b/engines/yayamls/token/token.go
index ba912fe..46bf2f1 100644
--- a/engines/yayamls/token/token.go
+++ b/engines/yayamls/token/token.go
@@ -156,7 +156,7 @@ func IsNonBreak(tok Token) bool {
 // MayPrecedeWord shows if given token may precede word (or string).
 func MayPrecedeWord(tok Token) bool {
 	switch tok.Type {
-	case SpaceType, TabType, LineBreakType, UnknownType:
+	case SpaceType, TabType, LineBreakType, BOMType, UnknownType:
 		return true
 	default:
 		return false
-- 
2.43.0


From 6c1b3a87b6dac119954faa55394691bfa431aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:49 +0000
Subject: [PATCH 42/73] fix: nested flow sequences are parsed in polynomial
 time

---
 engines/yayamls/parser/flow.go                    |  8 +++++++-
 engines/yayamls/parser/internal/deadend/finder.go |  6 +++---
 engines/yayamls/parser/parser.go                  | 10 +++++++++-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 48dea9e..bf7931a 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -719,8 +719,14 @@ func (p *parser) parseFlowPairJSONKeyEntry(ind *indentation, ctx context) ast.No
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
+	start := p.tokIndex
+	if _, ok := p.notPairKeys[start]; ok {
+		// parsing the nested collections once again leads to the same result
+		return ast.NewInvalidNode()
+	}
 	key := p.parseImplicitJSONKey(flowKeyContext)
-	if !ast.ValidNode(key) {
+	if !ast.ValidNode(key) || p.tok.Type != token.MappingValueType {
+		p.notPairKeys[start] = struct{}{}
 		return ast.NewInvalidNode()
 	}
 	value := p.parseFlowMappingAdjacentValue(ind, ctx)
diff --git a/engines/yayamls/parser/internal/deadend/finder.go b/engines/yayamls/parser/internal/deadend/finder.go
index 25581d6..0b2ead7 100644
--- a/engines/yayamls/parser/internal/deadend/finder.go
+++ b/engines/yayamls/parser/internal/deadend/finder.go
@@ -4,15 +4,15 @@ import (
 	"github.com/KSpaceer/yamly/engines/yayamls/token"
 )
 
-const deadEndTriggerThreshold = 64
+const deadEndTriggerThreshold = 1 << 12
 
 type Finder struct {
-	m map[token.Position]int8
+	m map[token.Position]int
 }
 
 func NewFinder() Finder {
 	return Finder{
-		m: make(map[token.Position]int8),
+		m: make(map[token.Position]int),
 	}
 }
 
diff --git a/engines/yayamls/parser/parser.go b/engines/yayamls/parser/parser.go
index 532879d..11278c3 100644
--- a/engines/yayamls/parser/parser.go
+++ b/engines/yayamls/parser/parser.go
@@ -51,13 +51,17 @@ type parser struct {
 	errors         []error
 	balanceChecker balancecheck.BalanceChecker
 	deadEndFinder  deadend.Finder
+	// notPairKeys contains indices of tokens which do not start an implicit JSON key of a single pair mapping.
+	notPairKeys map[int]struct{}
 
 	// unescape makes parser replace escape sequences of quoted texts with escaped characters.
 	unescape bool
 }
 
 type state struct {
-	startOfLine         bool
+	startOfLine bool
+	// tokIndex is the index of the current token.
+	tokIndex            int
 	balanceCheckMemento balancecheck.BalanceCheckerMemento
 	// balanceBeforeTok is the state of balance checker before reading the current token.
 	balanceBeforeTok balancecheck.BalanceCheckerMemento
@@ -84,6 +88,7 @@ func newParser(tokSrc *tokenSource) *parser {
 			{token.MappingStartType, token.MappingEndType},
 		}),
 		deadEndFinder: deadend.NewFinder(),
+		notPairKeys:   make(map[int]struct{}),
 	}
 }
 
@@ -154,6 +159,7 @@ func (p *parser) Parse() (ast.Node, error) {
 func (p *parser) next() {
 	p.startOfLine = isStartOfLine(p.startOfLine, p.tok)
 	p.tok = p.tokSrc.Next()
+	p.tokIndex++
 	p.balanceBeforeTok = p.balanceChecker.Memento()
 	switch p.tok.Type {
 	case token.EOFType:
@@ -202,6 +208,7 @@ func (p *parser) release() {
 	p.savedStates = p.savedStates[:0]
 	p.balanceChecker.Reset()
 	p.deadEndFinder.Reset()
+	clear(p.notPairKeys)
 	p.errors = p.errors[:0]
 	p.unescape = false
 	p.state = state{startOfLine: true}
@@ -212,6 +219,7 @@ func (p *parser) setCheckpoint() {
 	p.tokSrc.SetCheckpoint()
 	p.savedStates = append(p.savedStates, state{
 		startOfLine:         p.startOfLine,
+		tokIndex:            p.tokIndex,
 		balanceCheckMemento: p.balanceChecker.Memento(),
 		balanceBeforeTok:    p.balanceBeforeTok,
 	})
-- 
2.43.0


From 29a6fc9504ee796a45e31059d9c4254ce06bddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:54 +0000
Subject: [PATCH 43/73] fix: line breaks of block scalars are normalized

---
 engines/yayamls/parser/block.go   | 14 ++++++++++----
 engines/yayamls/parser/indents.go |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index bf405e3..ebf7c31 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/KSpaceer/yamly/engines/yayamls/ast"
 	"github.com/KSpaceer/yamly/engines/yayamls/token"
+	"github.com/KSpaceer/yamly/engines/yayamls/yamlchar"
 )
 
 // YAML specification: [196] s-l+block-node
@@ -524,7 +525,7 @@ func (p *parser) parseDiffLines(ind *indentation, buf *bytes.Buffer) ast.Node {
 			p.rollback()
 			break
 		}
-		buf.WriteString(p.tok.Origin)
+		p.writeLineBreak(buf)
 		p.next()
 		if !ast.ValidNode(p.parseSameLines(ind, buf)) {
 			buf.Truncate(savedLen)
@@ -617,7 +618,7 @@ func (p *parser) parseSpacedLineBreak(ind *indentation, buf *bytes.Buffer) ast.N
 	if p.hasErrors() || p.tok.Type != token.LineBreakType {
 		return ast.NewInvalidNode()
 	}
-	buf.WriteString(p.tok.Origin)
+	p.writeLineBreak(buf)
 
 	savedLen := buf.Len()
 
@@ -727,6 +728,11 @@ func (p *parser) parseTrimmed(ind *indentation, ctx context, buf *bytes.Buffer)
 	return ast.NewBasicNode(ast.TextType)
 }
 
+// writeLineBreak writes the normalized line break: all kinds of line breaks inside of a scalar are line feeds.
+func (*parser) writeLineBreak(buf *bytes.Buffer) {
+	buf.WriteByte(byte(yamlchar.LineFeedCharacter))
+}
+
 // parseRawLine reads tokens of block scalar line "as is".
 func (p *parser) parseRawLine(buf *bytes.Buffer) {
 	p.tokSrc.SetRawMode()
@@ -812,7 +818,7 @@ func (p *parser) parseChompedLast(chomping ast.ChompingType, buf *bytes.Buffer)
 	case ast.ClipChompingType, ast.KeepChompingType:
 		switch p.tok.Type {
 		case token.LineBreakType:
-			buf.WriteString(p.tok.Origin)
+			p.writeLineBreak(buf)
 		case token.EOFType:
 		default:
 			return ast.NewInvalidNode()
@@ -927,7 +933,7 @@ func (p *parser) parseLiteralNext(ind *indentation, buf *bytes.Buffer) ast.Node
 		return ast.NewInvalidNode()
 	}
 	savedLen := buf.Len()
-	buf.WriteString(p.tok.Origin)
+	p.writeLineBreak(buf)
 	p.next()
 	if !ast.ValidNode(p.parseLiteralText(ind, buf)) {
 		buf.Truncate(savedLen)
diff --git a/engines/yayamls/parser/indents.go b/engines/yayamls/parser/indents.go
index 36a21ea..b8e7db7 100644
--- a/engines/yayamls/parser/indents.go
+++ b/engines/yayamls/parser/indents.go
@@ -149,7 +149,7 @@ func (p *parser) parseEmpty(ind *indentation, ctx context, buf *bytes.Buffer) as
 	if p.tok.Type != token.LineBreakType {
 		return ast.NewInvalidNode()
 	}
-	buf.WriteString(p.tok.Origin)
+	p.writeLineBreak(buf)
 	p.next()
 	return ast.NewBasicNode(ast.IndentType)
 }
-- 
2.43.0


From dab3e34fe072d9cd729e5aaad8cb0c76964a0f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:35 +0000
Subject: [PATCH 44/73] fix: empty entry of a sequence at the end of stream

---
 engines/yayamls/parser/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index ebf7c31..c1fae83 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -325,7 +325,7 @@ func (p *parser) parseBlockSequenceEntry(ind *indentation) ast.Node {
 	}
 	p.next()
 	switch p.tok.Type {
-	case token.SpaceType, token.TabType, token.LineBreakType:
+	case token.SpaceType, token.TabType, token.LineBreakType, token.EOFType:
 		return p.parseBlockIndented(ind, blockInContext)
 	default:
 		return ast.NewInvalidNode()
-- 
2.43.0


From c76f18d2fbec65e68736fe9b2830cff623e3186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:38 +0000
Subject: [PATCH 45/73] fix: repeated commas of flow mappings are reported

---
 engines/yayamls/parser/flow.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index bf7931a..e3c7150 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -525,10 +525,10 @@ func (p *parser) parseFlowMappingEntries(ind *indentation, ctx context) ast.Node
 		entry = p.parseFlowMappingEntry(ind, ctx)
 		if !ast.ValidNode(entry) {
 			p.rollback()
-		} else {
-			entries = append(entries, entry)
-			p.commit()
+			break
 		}
+		p.commit()
+		entries = append(entries, entry)
 	}
 
 	return ast.NewMappingNode(entries)
-- 
2.43.0


From 0728eed38fe9c05c3b3df59753d2e9cbcdc896b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:21 +0000
Subject: [PATCH 46/73] fix: Unsigned denies values which are not unsigned
 integers

---
 engines/goyaml/decode/expected.go  | 10 ++++++++++
 engines/goyaml/decode/reader.go    |  2 +-
 engines/yayamls/decode/expected.go | 10 ++++++++++
 engines/yayamls/decode/reader.go   |  2 +-
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/decode/expected.go b/engines/goyaml/decode/expected.go
index 065d6a4..0857c63 100644
--- a/engines/goyaml/decode/expected.go
+++ b/engines/goyaml/decode/expected.go
@@ -47,6 +47,16 @@ func (expectInteger) process(n *yaml.Node, prev visitingResult) visitingResult {
 	return processTerminalNode(n, prev, schema.IsInteger)
 }
 
+type expectUnsigned struct{}
+
+func (expectUnsigned) name() string {
+	return "ExpectUnsigned"
+}
+
+func (expectUnsigned) process(n *yaml.Node, prev visitingResult) visitingResult {
+	return processTerminalNode(n, prev, schema.IsUnsignedInteger)
+}
+
 type expectBoolean struct{}
 
 func (expectBoolean) name() string {
diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 1f2bd71..8e17f7e 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -178,7 +178,7 @@ func (r *ASTReader) Unsigned(bitSize int) uint64 {
 	if r.hasFatalError() {
 		return 0
 	}
-	r.currentExpecter = expectInteger{}
+	r.currentExpecter = expectUnsigned{}
 	r.visitCurrentNode()
 	if r.latestDenyError != nil || r.hasFatalError() {
 		r.appendError(r.latestDenyError)
diff --git a/engines/yayamls/decode/expected.go b/engines/yayamls/decode/expected.go
index 199a9d9..e6287dc 100644
--- a/engines/yayamls/decode/expected.go
+++ b/engines/yayamls/decode/expected.go
@@ -54,6 +54,16 @@ func (expectInteger) process(n ast.Node, prev visitingResult) visitingResult {
 	return processTerminalNode(n, prev, schema.IsInteger)
 }
 
+type expectUnsigned struct{}
+
+func (expectUnsigned) name() string {
+	return "ExpectUnsigned"
+}
+
+func (expectUnsigned) process(n ast.Node, prev visitingResult) visitingResult {
+	return processTerminalNode(n, prev, schema.IsUnsignedInteger)
+}
+
 type expectBoolean struct{}
 
 func (expectBoolean) name() string {
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 2b8b2c6..f1f52f0 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -183,7 +183,7 @@ func (r *ASTReader) Unsigned(bitSize int) uint64 {
 	if r.hasFatalError() {
 		return 0
 	}
-	r.currentExpecter = expectInteger{}
+	r.currentExpecter = expectUnsigned{}
 	r.visitCurrentNode()
 	if r.latestDenyError != nil || r.hasFatalError() {
 		r.appendError(r.latestDenyError)
-- 
2.43.0


From e79bac918abb8ac80283793864933c39546522c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:41 +0000
Subject: [PATCH 47/73] fix: denied null nodes do not leave stale values in the
 reader

---
 engines/yayamls/decode/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index f1f52f0..2d45ed0 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -450,10 +450,10 @@ func (r *ASTReader) VisitNullNode(n *ast.NullNode) {
 		r.popRoutePoint()
 	case visitingConclusionDeny:
 		r.swapRoutePoint(point)
-		r.appendError(yamly.DenyError(&denyError{
+		r.setLatestDeny(&denyError{
 			expecter: r.currentExpecter,
 			nt:       n.Type(),
-		}))
+		})
 	default:
 		r.appendError(fmt.Errorf("unexpected conclusion: %s", point.visitingResult.conclusion))
 	}
-- 
2.43.0


From df43f88dd96e358a0bc94b22745d7991dda4bafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:41 +0000
Subject: [PATCH 48/73] fix: tags which are not shorthands are written verbatim

---
 engines/yayamls/encode/writer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index ffb2b9a..2e3f2a3 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -150,8 +150,18 @@ func (w *ASTWriter) VisitStreamNode(n *ast.StreamNode) {
 }
 
 func (w *ASTWriter) VisitTagNode(n *ast.TagNode) {
-	w.buf.WriteString("!!")
-	w.buf.WriteString(n.Text())
+	switch tag := n.Text(); {
+	case tag == "":
+		w.buf.WriteString("!")
+	case yamlchar.ConformsCharSet(tag, yamlchar.TagCharSetType):
+		w.buf.WriteString("!!")
+		w.buf.WriteString(tag)
+	default:
+		// tag can't be written as shorthand
+		w.buf.WriteString("!<")
+		w.buf.WriteString(tag)
+		w.buf.WriteString(">")
+	}
 }
 
 func (w *ASTWriter) VisitAnchorNode(n *ast.AnchorNode) {
-- 
2.43.0


From ee7500cdba115c9454c2bca95aafc6533c4fdf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:40 +0000
Subject: [PATCH 49/73] fix: properties of implicit keys of block mappings

---
 engines/yayamls/parser/block.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index c1fae83..31c02ac 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -59,19 +59,18 @@ func (p *parser) parseBlockCollection(ind *indentation, ctx context) ast.Node {
 	ind.value++
 	if ast.ValidNode(p.parseSeparate(ind, ctx)) {
 		properties = p.parseProperties(ind, ctx)
-		if !ast.ValidNode(properties) {
-			p.rollback()
-			properties = nil
-		} else {
-			p.commit()
-		}
-	} else {
-		p.rollback()
 	}
 	ind.value--
 
-	if !ast.ValidNode(p.parseComments()) {
-		return ast.NewInvalidNode()
+	if ast.ValidNode(properties) && ast.ValidNode(p.parseComments()) {
+		p.commit()
+	} else {
+		// properties, if any, belong to the first key of mapping
+		p.rollback()
+		properties = nil
+		if !ast.ValidNode(p.parseComments()) {
+			return ast.NewInvalidNode()
+		}
 	}
 
 	p.setCheckpoint()
-- 
2.43.0


From 15084793515e46a3a721ec9e0631c6428f58a4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:40 +0000
Subject: [PATCH 50/73] fix: properties of quoted keys of flow mappings

---
 engines/yayamls/parser/flow.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index e3c7150..5751249 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -818,8 +818,9 @@ func (p *parser) parseFlowMappingImplicitEntry(ind *indentation, ctx context) as
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
+	// JSON-like keys go first because properties without content are valid YAML key
 	p.setCheckpoint()
-	entry := p.parseFlowMappingYAMLKeyEntry(ind, ctx)
+	entry := p.parseFlowMappingJSONKeyEntry(ind, ctx)
 	if ast.ValidNode(entry) {
 		p.commit()
 		return entry
@@ -827,7 +828,7 @@ func (p *parser) parseFlowMappingImplicitEntry(ind *indentation, ctx context) as
 	p.rollback()
 
 	p.setCheckpoint()
-	entry = p.parseFlowMappingJSONKeyEntry(ind, ctx)
+	entry = p.parseFlowMappingYAMLKeyEntry(ind, ctx)
 	if ast.ValidNode(entry) {
 		p.commit()
 		return entry
-- 
2.43.0


From 4501f7186622340f3664acfde7de096fce99e6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:40 +0000
Subject: [PATCH 51/73] fix: ErrDenied can be printed

---
 decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decode.go b/decode.go
index e58df26..99afee2 100644
--- a/decode.go
+++ b/decode.go
@@ -104,6 +104,9 @@ type denyError struct {
 }
 
 func (de *denyError) Error() string {
+	if de == nil {
+		return "denied"
+	}
 	return de.err.Error()
 }
 
-- 
2.43.0


From 2aa9c2b72ef72dc279289d5fdd30bc46a3a8ae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:51 +0000
Subject: [PATCH 52/73] fix: properties of the first key after properties of
 block mapping

---
 engines/yayamls/parser/block.go      | 46 +++++++++++++++++-----------
 engines/yayamls/parser/properties.go | 35 ++++++++++++++-------
 2 files changed, 52 insertions(+), 29 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 31c02ac..43ca9e2 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -52,25 +52,14 @@ func (p *parser) parseBlockCollection(ind *indentation, ctx context) ast.Node {
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
-	p.setCheckpoint()
-
-	var properties ast.Node
-
-	ind.value++
-	if ast.ValidNode(p.parseSeparate(ind, ctx)) {
-		properties = p.parseProperties(ind, ctx)
+	properties := p.parseBlockCollectionProperties(ind, ctx, p.parseProperties)
+	if properties == nil {
+		// the second property may belong to the first key of mapping
+		properties = p.parseBlockCollectionProperties(ind, ctx, p.parseSingleProperty)
 	}
-	ind.value--
-
-	if ast.ValidNode(properties) && ast.ValidNode(p.parseComments()) {
-		p.commit()
-	} else {
-		// properties, if any, belong to the first key of mapping
-		p.rollback()
-		properties = nil
-		if !ast.ValidNode(p.parseComments()) {
-			return ast.NewInvalidNode()
-		}
+	// properties, if any, belong to the first key of mapping
+	if properties == nil && !ast.ValidNode(p.parseComments()) {
+		return ast.NewInvalidNode()
 	}
 
 	p.setCheckpoint()
@@ -87,6 +76,27 @@ func (p *parser) parseBlockCollection(ind *indentation, ctx context) ast.Node {
 	return newContentNode(properties, collection)
 }
 
+// parseBlockCollectionProperties parses properties of block collection along with comments and line break after them.
+func (p *parser) parseBlockCollectionProperties(
+	ind *indentation,
+	ctx context,
+	parseProperties func(*indentation, context) ast.Node,
+) ast.Node {
+	p.setCheckpoint()
+	ind.value++
+	var properties ast.Node
+	if ast.ValidNode(p.parseSeparate(ind, ctx)) {
+		properties = parseProperties(ind, ctx)
+	}
+	ind.value--
+	if ast.ValidNode(properties) && ast.ValidNode(p.parseComments()) {
+		p.commit()
+		return properties
+	}
+	p.rollback()
+	return nil
+}
+
 // YAML specification: [187] l+block-mapping
 func (p *parser) parseBlockMapping(ind *indentation) ast.Node {
 	if p.hasErrors() {
diff --git a/engines/yayamls/parser/properties.go b/engines/yayamls/parser/properties.go
index 1224b38..57cce43 100644
--- a/engines/yayamls/parser/properties.go
+++ b/engines/yayamls/parser/properties.go
@@ -66,19 +66,11 @@ func (p *parser) parseProperties(ind *indentation, ctx context) ast.Node {
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
-	var tag, anchor ast.Node
-	switch p.tok.Type {
-	case token.TagType:
-		tag = p.parseTagProperty()
-	case token.AnchorType:
-		anchor = p.parseAnchorProperty()
-	default:
-		return ast.NewInvalidNode()
-	}
-
-	if !ast.ValidNode(tag) && !ast.ValidNode(anchor) {
+	single := p.parseSingleProperty(ind, ctx)
+	if !ast.ValidNode(single) {
 		return ast.NewInvalidNode()
 	}
+	tag, anchor := single.(*ast.PropertiesNode).Tag(), single.(*ast.PropertiesNode).Anchor() // nolint: forcetypeassert
 
 	p.setCheckpoint()
 	if ast.ValidNode(p.parseSeparate(ind, ctx)) {
@@ -98,6 +90,27 @@ func (p *parser) parseProperties(ind *indentation, ctx context) ast.Node {
 	return ast.NewPropertiesNode(tag, anchor)
 }
 
+// parseSingleProperty parses either a tag or an anchor.
+func (p *parser) parseSingleProperty(*indentation, context) ast.Node {
+	if p.hasErrors() {
+		return ast.NewInvalidNode()
+	}
+	var tag, anchor ast.Node
+	switch p.tok.Type {
+	case token.TagType:
+		tag = p.parseTagProperty()
+	case token.AnchorType:
+		anchor = p.parseAnchorProperty()
+	default:
+		return ast.NewInvalidNode()
+	}
+
+	if !ast.ValidNode(tag) && !ast.ValidNode(anchor) {
+		return ast.NewInvalidNode()
+	}
+	return ast.NewPropertiesNode(tag, anchor)
+}
+
 // YAML specification: [104] c-ns-alias-node
 func (p *parser) parseAliasNode() ast.Node {
 	if p.hasErrors() || p.tok.Type != token.AliasType {
-- 
2.43.0


From 263f2eb64155be89f2d8cfdf62872cc0d0e1bd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:31 +0000
Subject: [PATCH 53/73] fix: builds with nounsafe tag compile

---
 engines/yayamls/pkg/strslice/nounsafe.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/pkg/strslice/nounsafe.go b/engines/yayamls/pkg/strslice/nounsafe.go
index f3460f8..94e3d1a 100644
--- a/engines/yayamls/pkg/strslice/nounsafe.go
+++ b/engines/yayamls/pkg/strslice/nounsafe.go
@@ -2,10 +2,10 @@
 
 package strslice
 
-func StringToBytes(s string) []byte {
+func StringToBytesSlice(s string) []byte {
 	return []byte(s)
 }
 
-func BytesToString(s []byte) string {
+func BytesSliceToString(s []byte) string {
 	return string(s)
 }
-- 
2.43.0


From 80f26b6abaaabc176d7831cdc6624ae66cf541c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:47 +0000
Subject: [PATCH 54/73] fix: functions generated for different types of a
 package do not clash

---
 generator/generator.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 5ec4cad..23bbfb2 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -301,7 +301,8 @@ func (g *Generator) generateVarName(suffixes ...string) string {
 }
 
 func (g *Generator) generateFunctionName(prefix string, t reflect.Type) string {
-	prefix = joinFunctionNameParts(true, "yamly", prefix)
+	// functions of different files of the same package must not clash
+	prefix = joinFunctionNameParts(true, "yamly"+hashString(g.outputFile), prefix)
 	name := joinFunctionNameParts(true, prefix, safeTypeName(t))
 
 	if typ, ok := g.funcNames[name]; !ok || t == typ {
@@ -362,8 +363,12 @@ func anonymousStructSuffix(t reflect.Type) string {
 		suffixBuilder.WriteString(t.Field(i).Name)
 		suffixBuilder.WriteString(t.Field(i).Type.String())
 	}
+	return hashString(suffixBuilder.String())
+}
+
+func hashString(s string) string {
 	hasher := fnv.New32()
-	hasher.Write(suffixBuilder.Bytes())
+	hasher.Write([]byte(s))
 	return fmt.Sprintf("%X", hasher.Sum32())
 }
 
-- 
2.43.0


From ab8c1e36cfd52f2d904f4b27fd2419b1b5c84cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:57 +0000
Subject: [PATCH 55/73] fix: generated function names for types with non-ASCII
 names are valid UTF-8

---
 generator/generator.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 23bbfb2..e3fff9f 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -11,6 +11,7 @@ import (
 	"strconv"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 const (
@@ -378,13 +379,11 @@ func joinFunctionNameParts(keepFirst bool, parts ...string) string {
 		if i == 0 && keepFirst {
 			buf.WriteString(parts[i])
 		} else {
-			n := len(parts[i])
-			if n > 0 {
-				buf.WriteString(strings.ToUpper(string(parts[i][0])))
-			}
-			if n > 1 {
-				buf.WriteString(parts[i][1:])
+			first, size := utf8.DecodeRuneInString(parts[i])
+			if size > 0 {
+				buf.WriteRune(unicode.ToUpper(first))
 			}
+			buf.WriteString(parts[i][size:])
 		}
 	}
 	return buf.String()
-- 
2.43.0


From 5298f3c396d51b1defc260700e02579c0d074270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:55 +0000
Subject: [PATCH 56/73] fix: omitted field does not hide inlined field with key
 "-"

---
 generator/generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index e3fff9f..c27ec71 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -469,7 +469,9 @@ func mergeStructFields(firstFields, secondFields []structField) []structField {
 	used, usedKeys := make(map[string]bool), make(map[string]bool)
 	for _, f := range secondFields {
 		used[f.Name] = true
-		usedKeys[fieldKey(f.StructField, parseTags(f.Tag))] = true
+		if tags := parseTags(f.Tag); !tags.omitField {
+			usedKeys[fieldKey(f.StructField, tags)] = true
+		}
 		fields = append(fields, f)
 	}
 
-- 
2.43.0


From 0fdea61c7c2e1af0821a43e47d5d76a1686f863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:19 +0000
Subject: [PATCH 57/73] fix: package name is not taken from the files excluded
 by build constraints

---
 generator/parser/parser.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/generator/parser/parser.go b/generator/parser/parser.go
index 3901b7a..bda7ca5 100644
--- a/generator/parser/parser.go
+++ b/generator/parser/parser.go
@@ -3,6 +3,7 @@ package parser
 
 import (
 	"go/ast"
+	"go/build"
 	"go/parser"
 	"go/token"
 	"io/fs"
@@ -21,17 +22,29 @@ func (p *Parser) Parse(dirPath string) error {
 	if p.PkgPath, err = findPkgPath(dirPath); err != nil {
 		return err
 	}
+	notTest := func(info fs.FileInfo) bool {
+		return !strings.HasSuffix(info.Name(), "_test.go")
+	}
 	packages, err := parser.ParseDir(
 		token.NewFileSet(),
 		dirPath,
 		func(info fs.FileInfo) bool {
-			return !strings.HasSuffix(info.Name(), "_test.go")
+			// excluded files may belong to another package
+			match, err := build.Default.MatchFile(dirPath, info.Name())
+			return notTest(info) && (match || err != nil)
 		},
 		parser.PackageClauseOnly,
 	)
 	if err != nil {
 		return err
 	}
+	if len(packages) == 0 {
+		// all of the files are excluded, e.g. because of custom build tags
+		packages, err = parser.ParseDir(token.NewFileSet(), dirPath, notTest, parser.PackageClauseOnly)
+		if err != nil {
+			return err
+		}
+	}
 	for _, pkg := range packages {
 		ast.Walk((*pkgNameVisitor)(&p.PkgName), pkg)
 	}
-- 
2.43.0


From bd1f896826c96e8b75a5660a0c0a601470a8a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:01 +0000
Subject: [PATCH 58/73] fix: shorthand tags can hold dashes

---
 engines/yayamls/yamlchar/chars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index a0b381d..385ffc9 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -95,7 +95,7 @@ func IsURI(s string) bool {
 
 // YAML specification: [40] ns-tag-char
 func IsTagString(s string) bool {
-	const TagOnlyChars = "#;/?:@&=+$_.~*'"
+	const TagOnlyChars = "-#;/?:@&=+$_.~*'"
 
 	runes := []rune(s)
 	n := len(runes)
-- 
2.43.0


From 3a352ea1b387cb02399014bcd9e0f536f5a384e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:23 +0000
Subject: [PATCH 59/73] fix: checkpointing accessor restores the last element
 read from its buffer

---
 engines/yayamls/pkg/cpaccessor/accessor.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/engines/yayamls/pkg/cpaccessor/accessor.go b/engines/yayamls/pkg/cpaccessor/accessor.go
index e9fb6bd..328116f 100644
--- a/engines/yayamls/pkg/cpaccessor/accessor.go
+++ b/engines/yayamls/pkg/cpaccessor/accessor.go
@@ -59,6 +59,10 @@ func (a *CheckpointingAccessor[T]) Next() T {
 		// get element from the buffer
 		val = a.buf[a.bufIndicator]
 		a.bufIndicator++
+		if len(a.checkpointsStack) == 0 {
+			// remember element to be able to rollback to it
+			a.saved = val
+		}
 		if a.bufIndicator == len(a.buf) {
 			if len(a.checkpointsStack) == 0 {
 				// there are no checkpoints - buffer elements will not be used anymore
@@ -111,6 +115,9 @@ func (a *CheckpointingAccessor[T]) Rollback() T {
 		}
 		// remove checkpoint
 		a.checkpointsStack = a.checkpointsStack[:stackLen-1]
+		if len(a.checkpointsStack) == 0 {
+			a.saved = restoredVal
+		}
 		return restoredVal
 	}
 }
@@ -126,6 +133,8 @@ func (a *CheckpointingAccessor[T]) Commit() {
 			// we have to remember the last value to be able to rollback to it.
 			a.saved = a.buf[len(a.buf)-1]
 			a.buf = a.buf[:0]
+		} else if a.bufIndicator > 0 {
+			a.saved = a.buf[a.bufIndicator-1]
 		}
 		fallthrough
 	default:
-- 
2.43.0


From 474feaf52a0c93d8348a8f29365cce710fa8344d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:56 +0000
Subject: [PATCH 60/73] fix: octal and hexadecimal unsigned integers have no
 sign

---
 engines/pkg/schema/schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index 9c9d4ad..a4f7952 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -95,8 +95,8 @@ func FromUnsignedInteger(val uint64) string {
 
 // ToUnsignedInteger tries to convert YAML into Go unsigned integer with given bit size.
 func ToUnsignedInteger(src string, bitSize int) (uint64, error) {
-	digits, base := splitIntegerBase(strings.TrimPrefix(src, "+"))
-	return strconv.ParseUint(digits, base, bitSize)
+	digits, base := splitIntegerBase(src)
+	return strconv.ParseUint(strings.TrimPrefix(digits, "+"), base, bitSize)
 }
 
 // splitIntegerBase removes base prefix and returns remaining digits with their base.
-- 
2.43.0


From 362bbd4ed1e44953d0f618c85e48db7e76e902f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:44 +0000
Subject: [PATCH 61/73] fix: verbatim tags can hold exclamation marks

---
 engines/yayamls/lexer/context.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index ecf0f5d..6ff0424 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -15,6 +15,7 @@ const (
 	singleQuoteContextType
 	doubleQuoteContextType
 	tagContextType
+	verbatimTagContextType
 )
 
 const contextStackPreallocationSize = 4
@@ -70,7 +71,7 @@ func (c *context) whitespaceRevertContext() {
 	ctxType := c.currentType()
 	for {
 		switch ctxType {
-		case tagContextType:
+		case tagContextType, verbatimTagContextType:
 		default:
 			return
 		}
@@ -235,7 +236,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.TagCharacter:
-		c.switchContext(tagContextType)
+		c.switchToTagContext(t)
 		tok.End = t.pos
 		tok.Type = token.TagType
 		tok.Origin = string([]rune{r})
@@ -358,7 +359,7 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.TagCharacter:
-		c.switchContext(tagContextType)
+		c.switchToTagContext(t)
 		tok.End = t.pos
 		tok.Type = token.TagType
 		tok.Origin = string([]rune{r})
@@ -493,6 +494,18 @@ func (c *context) doubleQuoteMatching(t *Tokenizer, r rune) (token.Token, bool)
 	return c.baseMatching(t, r)
 }
 
+// switchToTagContext must be called at the start of a tag.
+// Exclamation marks are ordinary characters inside of a verbatim tag.
+func (c *context) switchToTagContext(t *Tokenizer) {
+	if t.lookahead(1, func(runes []rune) bool {
+		return runes[0] == '<'
+	}) {
+		c.switchContext(verbatimTagContextType)
+		return
+	}
+	c.switchContext(tagContextType)
+}
+
 func (c *context) tagMatching(t *Tokenizer, r rune) (token.Token, bool) {
 	tok := token.Token{Start: t.pos}
 	if r == yamlchar.TagCharacter {
-- 
2.43.0


From ef177095bf3ebb8bfebe68e60d773b7c439d72a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:03 +0000
Subject: [PATCH 62/73] fix: flow indicators end a shorthand tag inside of a
 flow collection

---
 engines/yayamls/lexer/context.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 6ff0424..0df8e9c 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -514,6 +514,13 @@ func (c *context) tagMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		tok.Origin = string([]rune{r})
 		return tok, true
 	}
+	if yamlchar.IsFlowIndicatorChar(r) {
+		// indicators can't be a part of the tag, so they end it.
+		if n := len(c.ctxStack); n > 1 && c.ctxStack[n-2] == flowContextType {
+			c.revertContext()
+			return c.flowMatching(t, r)
+		}
+	}
 	return c.baseMatching(t, r)
 }
 
-- 
2.43.0


From d7d4ff9b4fead77e445348c7092a4e5aceece099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:31 +0000
Subject: [PATCH 63/73] fix: keys which are too long for implicit ones are
 written as explicit

---
 engines/yayamls/encode/writer.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 2e3f2a3..fe00b80 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -15,6 +15,9 @@ import (
 const (
 	defaultBasicIndentation = 0
 	defaultIndendationDelta = 2
+
+	// an implicit key takes at most 1024 characters, a byte of text takes at most 4 of them
+	maxImplicitKeyTextLength = 200
 )
 
 const (
@@ -268,13 +271,13 @@ func (w *ASTWriter) VisitMappingNode(n *ast.MappingNode) {
 func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 	key, value := n.Key(), n.Value()
 
-	isComplexKey := isComplex(key)
+	isComplexKey, isExplicitKey := isComplex(key), isComplex(key) || isLongText(key)
 	if alias, ok := key.(*ast.AliasNode); ok && w.mustDereference(alias.Text()) {
 		if anchored, err := w.opts.anchorsKeeper.DereferenceAlias(alias.Text()); err == nil {
-			isComplexKey = isComplex(anchored)
+			isComplexKey, isExplicitKey = isComplex(anchored), isComplex(anchored) || isLongText(anchored)
 		}
 	}
-	if isComplexKey {
+	if isExplicitKey {
 		// entry may be an element of sequence
 		w.buf.WriteString(w.beforeComplex)
 		w.writeBeforeComplexElements("")
@@ -287,8 +290,9 @@ func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 	key.Accept(w)
 	w.writingKey = false
 
-	if isComplexKey {
+	if isExplicitKey {
 		w.decreaseIndentation()
+		w.maybeWriteLineBreak()
 		w.maybeWriteIndentation()
 	} else if isAlias(key) {
 		// colon is allowed in anchor name
@@ -448,6 +452,18 @@ func isAlias(n ast.Node) bool {
 	return n.Type() == ast.AliasType
 }
 
+// isLongText shows if text of the node may take more characters than it is allowed for an implicit key.
+func isLongText(n ast.Node) bool {
+	switch n := n.(type) {
+	case *ast.TextNode:
+		return len(n.Text()) > maxImplicitKeyTextLength
+	case *ast.ContentNode:
+		return isLongText(n.Content())
+	default:
+		return false
+	}
+}
+
 func isComplex(n ast.Node) bool {
 	switch n := n.(type) {
 	case *ast.SequenceNode:
-- 
2.43.0


From a633680b07a368cbbedf9146fd706b19557877d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:12 +0000
Subject: [PATCH 64/73] fix: embedded fields which are not structs are kept by
 -inline-embedded

---
 generator/generator.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index c27ec71..cf239d2 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -460,8 +460,12 @@ func (g *Generator) getStructFields(t reflect.Type) ([]structField, error) {
 
 // isInlined tells if the fields of the field's type belong to mapping of the host struct.
 func (g *Generator) isInlined(f reflect.StructField) bool {
-	tags := parseTags(f.Tag)
-	return (f.Anonymous && g.inlineEmbedded && tags.name == "") || tags.inline
+	tags, t := parseTags(f.Tag), f.Type
+	if t.Kind() == reflect.Pointer {
+		t = t.Elem()
+	}
+	// embedded field of any other type has no fields to inline
+	return (f.Anonymous && g.inlineEmbedded && tags.name == "" && t.Kind() == reflect.Struct) || tags.inline
 }
 
 func mergeStructFields(firstFields, secondFields []structField) []structField {
-- 
2.43.0


From f4b937ad760396f8eab1a53b4040988eb63aba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:43 +0000
Subject: [PATCH 65/73] fix: local variables of generated code hide types of
 the package

A type called key, v1, v2 and so on could not be used in the type code is
generated for: the generated functions have variables with these names.
---
 generator/decoder.go   | 10 +++++-----
 generator/generator.go |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 5a6e52e..8d4285e 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -89,14 +89,14 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 
 	fmt.Fprintln(g.out, "  structMappingState := in.Mapping()")
 	fmt.Fprintln(g.out, "  for structMappingState.HasUnprocessedItems() {")
-	fmt.Fprintln(g.out, "    key := in.String()")
+	fmt.Fprintln(g.out, "    yamlyKey := in.String()")
 	fmt.Fprintln(g.out, "    if in.TryNull() {")
 	if g.disallowUnknownFields {
 		g.generateUnknownNullFieldCheck(fields)
 	}
 	fmt.Fprintln(g.out, "      continue")
 	fmt.Fprintln(g.out, "    }")
-	fmt.Fprintln(g.out, "    switch key {")
+	fmt.Fprintln(g.out, "    switch yamlyKey {")
 	for _, f := range fields {
 		if err = g.generateStructFieldDecoder(f); err != nil {
 			return err
@@ -104,7 +104,7 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	}
 	fmt.Fprintln(g.out, "    default:")
 	if g.disallowUnknownFields {
-		fmt.Fprintln(g.out, "      in.AddError(&yamly.UnknownFieldError{Field: key})")
+		fmt.Fprintln(g.out, "      in.AddError(&yamly.UnknownFieldError{Field: yamlyKey})")
 	} else {
 		fmt.Fprintln(g.out, "      in.Skip()")
 	}
@@ -137,7 +137,7 @@ func (g *Generator) generateInlinedPointers(t reflect.Type, path string) {
 
 // generateUnknownNullFieldCheck generates reporting of unknown fields which have null value.
 func (g *Generator) generateUnknownNullFieldCheck(fields []structField) {
-	fmt.Fprintln(g.out, "      switch key {")
+	fmt.Fprintln(g.out, "      switch yamlyKey {")
 	for _, f := range fields {
 		tags := parseTags(f.Tag)
 		if tags.omitField {
@@ -146,7 +146,7 @@ func (g *Generator) generateUnknownNullFieldCheck(fields []structField) {
 		fmt.Fprintln(g.out, "      case "+strconv.Quote(fieldKey(f.StructField, tags))+":")
 	}
 	fmt.Fprintln(g.out, "      default:")
-	fmt.Fprintln(g.out, "        in.AddError(&yamly.UnknownFieldError{Field: key})")
+	fmt.Fprintln(g.out, "        in.AddError(&yamly.UnknownFieldError{Field: yamlyKey})")
 	fmt.Fprintln(g.out, "      }")
 }
 
diff --git a/generator/generator.go b/generator/generator.go
index cf239d2..fd6f9c4 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -294,7 +294,8 @@ func escapeTag(tag reflect.StructTag) string {
 
 func (g *Generator) generateVarName(suffixes ...string) string {
 	g.variablesCounter++
-	args := []any{"v", g.variablesCounter}
+	// types of the package must not be hidden by variables
+	args := []any{"yamlyVar", g.variablesCounter}
 	for i := range suffixes {
 		args = append(args, suffixes[i])
 	}
-- 
2.43.0


From c240ad4413e19a117bcb2e3fdf86d93eda06b6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:43 +0000
Subject: [PATCH 66/73] fix: any type called time.Time is taken for the one of
 the standard library

---
 generator/decoder.go | 2 +-
 generator/encoder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 8d4285e..b123f42 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -224,7 +224,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 	complexTypeElem bool,
 ) error {
 	whitespace := strings.Repeat(" ", indent)
-	if dec := customDecoders[t.String()]; dec != "" {
+	if dec := customDecoders[t.PkgPath()+"."+t.Name()]; dec != "" {
 		fmt.Fprintln(g.out, whitespace+outArg+" = "+dec)
 		return nil
 	} else if dec := basicDecoders[t.Kind()]; dec != "" {
diff --git a/generator/encoder.go b/generator/encoder.go
index c300277..ead9161 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -214,7 +214,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 	if enc := basicEncoderFormatStrings[t.Kind()]; enc != "" {
 		fmt.Fprintf(g.out, whitespace+enc+"\n", inArg)
 		return nil
-	} else if enc := customEncoderFormatStrings[t.String()]; enc != "" {
+	} else if enc := customEncoderFormatStrings[t.PkgPath()+"."+t.Name()]; enc != "" {
 		g.imports[t.PkgPath()] = t.Name() // assume it is a standard library
 		fmt.Fprintf(g.out, whitespace+enc+"\n", inArg)
 		return nil
-- 
2.43.0


From bd793edea69e2c7fea0d0e4339752d804096f597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:43 +0000
Subject: [PATCH 67/73] fix: aliases of imported packages in generated code can
 be no identifiers or hide names it uses

The last element of a package path can start with a digit, be a keyword or
hold characters identifiers don't have, and can be a name of a variable of
the generated functions.
---
 generator/generator.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index fd6f9c4..50024b7 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -3,6 +3,8 @@ package generator
 import (
 	"bytes"
 	"fmt"
+	"go/token"
+	"go/types"
 	"hash/fnv"
 	"io"
 	"path/filepath"
@@ -268,9 +270,20 @@ func (g *Generator) pkgAlias(pkgPath string) string {
 	}
 }
 
+// reservedAliases contains names which are used by generated code.
+var reservedAliases = map[string]bool{
+	"in": true, "out": true, "key": true, "structMappingState": true, "zeroValue": true,
+	"m": true, "ok": true, "extIn": true, "node": true,
+}
+
 func fixPkgAlias(alias string) string {
-	alias = strings.NewReplacer(".", "_", "-", "_").Replace(alias)
-	if alias[0] == 'v' {
+	alias = strings.Map(func(r rune) rune {
+		if unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, alias)
+	if alias[0] == 'v' || reservedAliases[alias] || !token.IsIdentifier(alias) || types.Universe.Lookup(alias) != nil {
 		alias = "_" + alias
 	}
 	return alias
-- 
2.43.0


From a4ca448b347e291c55d598691ab0d3b5f6bb1468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:14 +0000
Subject: [PATCH 68/73] fix: fields of embedded structs hidden by name are
 dropped by -inline-embedded

---
 generator/generator.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 50024b7..3fe5d6d 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -426,7 +426,7 @@ func (g *Generator) getStructFields(t reflect.Type) ([]structField, error) {
 			continue
 		}
 
-		t := f.Type
+		host, t := t, f.Type
 		if t.Kind() == reflect.Pointer {
 			t = t.Elem()
 		}
@@ -443,8 +443,7 @@ func (g *Generator) getStructFields(t reflect.Type) ([]structField, error) {
 				if f.Type.Kind() == reflect.Pointer {
 					fs[i].pointers = append([]string{f.Name}, fs[i].pointers...)
 				}
-				if !f.Anonymous {
-					// only fields of embedded structs are promoted
+				if !f.Anonymous || !isPromoted(host, f, fs[i].Name) {
 					fs[i].Name = f.Name + "." + fs[i].Name
 				}
 			}
@@ -472,6 +471,14 @@ func (g *Generator) getStructFields(t reflect.Type) ([]structField, error) {
 	return mergeStructFields(embeddedFields, fields), nil
 }
 
+// isPromoted tells if the field of embedded struct is accessible by its name in the host struct,
+// i.e. it is not hidden by another field.
+func isPromoted(host reflect.Type, embedded reflect.StructField, name string) bool {
+	name, _, _ = strings.Cut(name, ".")
+	f, ok := host.FieldByName(name)
+	return ok && f.Index[0] == embedded.Index[0]
+}
+
 // isInlined tells if the fields of the field's type belong to mapping of the host struct.
 func (g *Generator) isInlined(f reflect.StructField) bool {
 	tags, t := parseTags(f.Tag), f.Type
-- 
2.43.0


From d79f232c1e3944a0aef3ba5ad039292ae90226cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:06 +0000
Subject: [PATCH 69/73] fix: Raw of goyaml mixes up redefined anchors and
 overflows the stack on cyclic ones

---
 engines/goyaml/decode/raw.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/engines/goyaml/decode/raw.go b/engines/goyaml/decode/raw.go
index ef2582b..5593cf9 100644
--- a/engines/goyaml/decode/raw.go
+++ b/engines/goyaml/decode/raw.go
@@ -1,7 +1,7 @@
 package decode
 
 import (
-	"fmt"
+	"errors"
 
 	"gopkg.in/yaml.v3"
 )
@@ -23,7 +23,7 @@ import (
 // in "inner" element.
 type rawTransformer struct {
 	topLevelAnchor string
-	metAnchors     map[string]struct{}
+	metAnchors     map[string]*yaml.Node
 
 	dereferencedAliases []dereferencedAliasInfo
 
@@ -35,7 +35,7 @@ type rawTransformer struct {
 
 func newRawTransformer() rawTransformer {
 	return rawTransformer{
-		metAnchors: map[string]struct{}{},
+		metAnchors: map[string]*yaml.Node{},
 		visiting:   map[*yaml.Node]struct{}{},
 	}
 }
@@ -57,21 +57,24 @@ func (rt *rawTransformer) transform(n *yaml.Node) *yaml.Node {
 }
 
 func (rt *rawTransformer) visitNode(n *yaml.Node) {
+	if rt.err != nil {
+		return
+	}
 	if n.Anchor != "" {
-		rt.metAnchors[n.Anchor] = struct{}{}
+		rt.metAnchors[n.Anchor] = n
 	}
 	switch n.Kind {
 	case yaml.AliasNode:
-		if _, ok := rt.visiting[n.Alias]; ok {
-			rt.err = fmt.Errorf("anchor %q value contains itself", n.Value)
-			return
-		}
 		rt.visitNode(n.Alias)
 	case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode:
+		if _, ok := rt.visiting[n]; ok {
+			rt.err = errors.New("anchor value contains itself")
+			return
+		}
 		rt.visiting[n] = struct{}{}
 		for i, child := range n.Content {
 			if child.Kind == yaml.AliasNode {
-				if _, metAnchor := rt.metAnchors[child.Value]; metAnchor {
+				if rt.metAnchors[child.Value] == child.Alias {
 					continue
 				}
 				n.Content[i] = child.Alias
-- 
2.43.0


From 56a4f1ca197d523106030025eead49611b0b497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:24 +0000
Subject: [PATCH 70/73] fix: verbatim tag is not ended by indicators of flow
 collection

---
 engines/yayamls/lexer/context.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 0df8e9c..f63296c 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -120,6 +120,8 @@ func (c *context) matchSpecialToken(t *Tokenizer, r rune) (token.Token, bool) {
 		return c.doubleQuoteMatching(t, r)
 	case tagContextType:
 		return c.tagMatching(t, r)
+	case verbatimTagContextType:
+		return c.verbatimTagMatching(t, r)
 	default:
 		return c.baseMatching(t, r)
 	}
@@ -524,6 +526,15 @@ func (c *context) tagMatching(t *Tokenizer, r rune) (token.Token, bool) {
 	return c.baseMatching(t, r)
 }
 
+func (c *context) verbatimTagMatching(t *Tokenizer, r rune) (token.Token, bool) {
+	if r == '>' {
+		// verbatim part is over, so indicators may end the tag.
+		c.revertContext()
+		c.switchContext(tagContextType)
+	}
+	return c.baseMatching(t, r)
+}
+
 func (c *context) rawMatching(t *Tokenizer, r rune) (token.Token, bool) {
 	return c.baseMatching(t, r)
 }
-- 
2.43.0


From 1b96a98f50c42e7058c9026c4c7562e0677dd299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:15 +0000
Subject: [PATCH 71/73] fix: markers of documents are taken for lines of block
 scalars at the margin

---
 engines/yayamls/parser/block.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 43ca9e2..410a3d2 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -675,7 +675,7 @@ func (p *parser) parseFoldedText(ind *indentation, buf *bytes.Buffer) ast.Node {
 	if p.hasErrors() || !ast.ValidNode(p.parseIndent(ind)) {
 		return ast.NewInvalidNode()
 	}
-	if !token.IsNonBreak(p.tok) || token.IsWhiteSpace(p.tok) {
+	if !token.IsNonBreak(p.tok) || token.IsWhiteSpace(p.tok) || isDocumentMarker(p.tok) {
 		return ast.NewInvalidNode()
 	}
 	p.parseRawLine(buf)
@@ -742,6 +742,11 @@ func (*parser) writeLineBreak(buf *bytes.Buffer) {
 	buf.WriteByte(byte(yamlchar.LineFeedCharacter))
 }
 
+// isDocumentMarker shows if the token ends the document, so it can't be a part of block scalar.
+func isDocumentMarker(tok token.Token) bool {
+	return tok.Type == token.DirectiveEndType || tok.Type == token.DocumentEndType
+}
+
 // parseRawLine reads tokens of block scalar line "as is".
 func (p *parser) parseRawLine(buf *bytes.Buffer) {
 	p.tokSrc.SetRawMode()
@@ -967,7 +972,7 @@ func (p *parser) parseLiteralText(ind *indentation, buf *bytes.Buffer) ast.Node
 	if !ast.ValidNode(p.parseIndent(ind)) {
 		return ast.NewInvalidNode()
 	}
-	if !token.IsNonBreak(p.tok) {
+	if !token.IsNonBreak(p.tok) || isDocumentMarker(p.tok) {
 		return ast.NewInvalidNode()
 	}
 	p.parseRawLine(buf)
-- 
2.43.0


From ccf34641c856c97f41bb7e01461555ced855e137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:11 +0000
Subject: [PATCH 72/73] fix: package is not found by absolute path with dots

---
 generator/parser/pkgpath.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/generator/parser/pkgpath.go b/generator/parser/pkgpath.go
index 65e730c..2b9e033 100644
--- a/generator/parser/pkgpath.go
+++ b/generator/parser/pkgpath.go
@@ -13,12 +13,9 @@ import (
 
 // inspired by easyjson (https://github.com/mailru/easyjson/blob/master/parser/pkgpath.go)
 func findPkgPath(dirPath string) (string, error) {
-	if !filepath.IsAbs(dirPath) {
-		currentDir, err := os.Getwd()
-		if err != nil {
-			return "", err
-		}
-		dirPath = filepath.Join(currentDir, dirPath)
+	dirPath, err := filepath.Abs(dirPath)
+	if err != nil {
+		return "", err
 	}
 
 	goModPath, _ := getGoModPath(dirPath)
-- 
2.43.0


From 3ba5b1282f98beaf4555ed0e60f5dee3fc35c634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:34 +0000
Subject: [PATCH 73/73] fix: package in GOPATH is taken for its parent

---
 generator/parser/pkgpath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/parser/pkgpath.go b/generator/parser/pkgpath.go
index 2b9e033..bbfe9b6 100644
--- a/generator/parser/pkgpath.go
+++ b/generator/parser/pkgpath.go
@@ -36,7 +36,7 @@ func pkgPathFromGOPATH(dirPath string) (string, error) {
 		prefix := filepath.Join(p, "src") + string(filepath.Separator)
 		rel, err := filepath.Rel(prefix, dirPath)
 		if err == nil && !strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
-			return path.Dir(filePathToPackagePath(rel)), nil
+			return filePathToPackagePath(rel), nil
 		}
 	}
 	return "", fmt.Errorf("directory '%v' is not in GOPATH '%v'", dirPath, gopath)
-- 
2.43.0

