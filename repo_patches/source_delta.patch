From 1163f2749f01dc2e12c55686b772e427b1ff6fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:47 +0000
Subject: [PATCH 01/72] fix: do not process an alias again after its anchored
 node is processed

---
 engines/goyaml/decode/reader.go  | 4 +++-
 engines/yayamls/decode/reader.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 7a855d4..74f72c7 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -385,7 +385,9 @@ func (r *ASTReader) visitNode(n *yaml.Node) {
 	case yaml.ScalarNode:
 		r.visitScalarNode(n)
 	case yaml.AliasNode:
-		r.pushRoutePoint(routePoint{
+		// the anchored node takes the place of the alias: once it is processed,
+		// the alias is processed too.
+		r.swapRoutePoint(routePoint{
 			node: n.Alias,
 		})
 		r.visitNode(n.Alias)
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 17a90c7..37956c2 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -391,7 +391,9 @@ func (r *ASTReader) VisitAliasNode(n *ast.AliasNode) {
 	if err != nil {
 		r.appendError(err)
 	} else {
-		r.pushRoutePoint(routePoint{
+		// the anchored node takes the place of the alias: once it is processed,
+		// the alias is processed too.
+		r.swapRoutePoint(routePoint{
 			node: anchored,
 		})
 		anchored.Accept(r)
-- 
2.43.0


From 1b9ec7279c7d9d5d3ca24a0e025e913e17543e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:14 +0000
Subject: [PATCH 02/72] fix: stop collection iteration in yayamls reader after
 a fatal error

---
 engines/yayamls/decode/reader.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 37956c2..bb08831 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -626,7 +626,7 @@ func (r *ASTReader) appendError(err error) {
 	if r.multipleDenyErrors && errors.Is(err, yamly.ErrDenied) {
 		r.denyErrors = append(r.denyErrors, err)
 	} else if r.fatalError == nil {
-		r.fatalError = err
+		r.setFatalError(err)
 	}
 }
 
@@ -644,6 +644,22 @@ func (r *ASTReader) Error() error {
 
 func (r *ASTReader) AddError(err error) {
 	if r.fatalError == nil {
-		r.fatalError = err
+		r.setFatalError(err)
 	}
 }
+
+// setFatalError stores the error and drains iterators of all unfinished collections,
+// so their states have no unprocessed items.
+func (r *ASTReader) setFatalError(err error) {
+	if err == nil {
+		return
+	}
+	for _, point := range r.route {
+		if point.iter != nil {
+			for !point.iter.empty() {
+				point.iter.node()
+			}
+		}
+	}
+	r.fatalError = err
+}
-- 
2.43.0


From e537601ac860443a9d79bc64e765d7f2c01d5b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:14 +0000
Subject: [PATCH 03/72] fix: ignore nil errors added to goyaml reader

Generated code passes results of UnmarshalYAML and UnmarshalText to AddError as is,
so a nil error must not finish the iteration over unprocessed collections.
---
 engines/goyaml/decode/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 74f72c7..5151296 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -553,6 +553,9 @@ func (r *ASTReader) AddError(err error) {
 }
 
 func (r *ASTReader) setFatalError(err error) {
+	if err == nil {
+		return
+	}
 	for _, point := range r.route {
 		if point.iter != nil {
 			for !point.iter.empty() {
-- 
2.43.0


From 43e330377e853fc810b97c91825e89f68bb09be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:15 +0000
Subject: [PATCH 04/72] fix: return zero value when yayamls reader denies a
 null node with multiple deny errors

---
 engines/yayamls/decode/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index bb08831..61b1cb7 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -444,10 +444,10 @@ func (r *ASTReader) VisitNullNode(n *ast.NullNode) {
 		r.popRoutePoint()
 	case visitingConclusionDeny:
 		r.swapRoutePoint(point)
-		r.appendError(yamly.DenyError(&denyError{
+		r.setLatestDeny(&denyError{
 			expecter: r.currentExpecter,
 			nt:       n.Type(),
-		}))
+		})
 	default:
 		r.appendError(fmt.Errorf("unexpected conclusion: %s", point.visitingResult.conclusion))
 	}
-- 
2.43.0


From 5f1e8b3e3fc6c85f1a951ac97710af6cf52d065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:20 +0000
Subject: [PATCH 05/72] fix: unescape hexadecimal, \b and tab sequences of
 double quoted strings

---
 engines/yayamls/yamlchar/chars.go           | 2 +-
 engines/yayamls/yamlchar/transformations.go | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index b3df724..1db76b7 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -222,7 +222,7 @@ func IsJSONChar(r rune) bool {
 }
 
 // YAML specification: [41-58] ns-esc-...
-const singleEscapedCharacters = "0at\tnvfre \"/\\N_LP"
+const singleEscapedCharacters = "0abt\tnvfre \"/\\N_LP"
 
 // IsEscapedCharacter checks if given runes are valid escaped sequence of characters in YAML
 // (i.e. \<valid single escaped character>, \x<two hex digits>, \u<four hex digits> or
diff --git a/engines/yayamls/yamlchar/transformations.go b/engines/yayamls/yamlchar/transformations.go
index 2da178c..2596fab 100644
--- a/engines/yayamls/yamlchar/transformations.go
+++ b/engines/yayamls/yamlchar/transformations.go
@@ -174,7 +174,7 @@ func unescapeASCIICharacter(runes []rune, i int) (rune, int, error) {
 		result = '\a'
 	case 'b':
 		result = '\b'
-	case 't':
+	case 't', '\t':
 		result = '\t'
 	case 'n':
 		result = '\n'
@@ -221,8 +221,8 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 2 hexadecimal digits after \\x, but have %s",
 				string(runes[i:i+2]))
 		}
-		i += 2
 		escaped = runes[i : i+2]
+		i += 2
 	case 'u':
 		i++
 		if len(runes)-i < 4 {
@@ -232,8 +232,8 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 4 hexadecimal digits after \\u, but have %s",
 				string(runes[i:i+4]))
 		}
-		i += 4
 		escaped = runes[i : i+4]
+		i += 4
 	case 'U':
 		i++
 		if len(runes)-i < 8 {
@@ -243,8 +243,8 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 8 hexadecimal digits after \\U, but have %s",
 				string(runes[i:i+8]))
 		}
-		i += 8
 		escaped = runes[i : i+8]
+		i += 8
 	}
 	result, err := parseEscapedHexDigits(escaped)
 	return result, i, err
-- 
2.43.0


From 1d5122603ec6650b4ef3799f1430fcd189f14696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:20 +0000
Subject: [PATCH 06/72] fix: resolve escape sequences of quoted strings in
 yayamls

Text nodes created by parser hold the source text, so values of quoted strings with escape
sequences were decoded with the sequences as is and were escaped twice when written.
---
 engines/yayamls/ast/node.go      | 17 +++++++++++++++++
 engines/yayamls/decode/any.go    | 14 +++++++-------
 engines/yayamls/decode/reader.go |  3 +++
 engines/yayamls/encode/writer.go |  2 +-
 engines/yayamls/parser/flow.go   | 31 +++++++++++++++++++++++++++----
 engines/yayamls/schema/schema.go | 16 ++++++++--------
 6 files changed, 63 insertions(+), 20 deletions(-)

diff --git a/engines/yayamls/ast/node.go b/engines/yayamls/ast/node.go
index 02a6ffd..8c36c63 100644
--- a/engines/yayamls/ast/node.go
+++ b/engines/yayamls/ast/node.go
@@ -341,9 +341,18 @@ func WithQuotingType(t QuotingType) TextNodeOption {
 	})
 }
 
+// WithValue sets the value represented by TextNode text, if it differs from the text itself
+// (i.e. when text contains escape sequences).
+func WithValue(value string) TextNodeOption {
+	return textNodeOptionFunc(func(node *TextNode) {
+		node.value = &value
+	})
+}
+
 type TextNode struct {
 	quotingType QuotingType
 	text        string
+	value       *string
 }
 
 func (*TextNode) Type() NodeType {
@@ -362,6 +371,14 @@ func (t *TextNode) Text() string {
 	return t.text
 }
 
+// Value returns a string represented by the text, i.e. the text with all escape sequences resolved.
+func (t *TextNode) Value() string {
+	if t.value != nil {
+		return *t.value
+	}
+	return t.text
+}
+
 func NewTextNode(text string, opts ...TextNodeOption) *TextNode {
 	node := TextNode{
 		text: text,
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index fd7b9de..7e9cfd4 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -56,7 +56,7 @@ func (a *anyBuilder) VisitAliasNode(n *ast.AliasNode) {
 
 func (a *anyBuilder) VisitTextNode(n *ast.TextNode) {
 	if a.extractString {
-		a.stringValue = n.Text()
+		a.stringValue = n.Value()
 	} else {
 		a.extractAnyValueFromText(n)
 	}
@@ -162,17 +162,17 @@ func (a *anyBuilder) extractAnyValueFromText(n *ast.TextNode) {
 		a.value = nil
 		return
 	case schema.IsTimestamp(n):
-		a.value, err = schema.ToTimestamp(n.Text())
+		a.value, err = schema.ToTimestamp(n.Value())
 	case schema.IsUnsignedInteger(n):
-		a.value, err = schema.ToUnsignedInteger(n.Text(), 64)
+		a.value, err = schema.ToUnsignedInteger(n.Value(), 64)
 	case schema.IsInteger(n):
-		a.value, err = schema.ToInteger(n.Text(), 64)
+		a.value, err = schema.ToInteger(n.Value(), 64)
 	case schema.IsFloat(n):
-		a.value, err = schema.ToFloat(n.Text(), 64)
+		a.value, err = schema.ToFloat(n.Value(), 64)
 	case schema.IsBoolean(n):
-		a.value, err = schema.ToBoolean(n.Text())
+		a.value, err = schema.ToBoolean(n.Value())
 	default:
-		a.value = n.Text()
+		a.value = n.Value()
 	}
 	if err != nil {
 		a.appendError(err)
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 61b1cb7..7febae9 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -500,6 +500,9 @@ func (r *ASTReader) visitTexterNode(n ast.TexterNode) {
 	if point.visitingResult.action == visitingActionExtract {
 		r.extractedCollectionState = nil
 		r.extractedValue = n.Text()
+		if textNode, ok := n.(*ast.TextNode); ok {
+			r.extractedValue = textNode.Value()
+		}
 	}
 }
 
diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 325f2af..f9d1e6a 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -174,7 +174,7 @@ func (w *ASTWriter) VisitAliasNode(n *ast.AliasNode) {
 
 func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 	w.writePreparedData(n)
-	switch txt := n.Text(); n.QuotingType() {
+	switch txt := n.Value(); n.QuotingType() {
 	case ast.AbsentQuotingType:
 		if isMultiline(txt) {
 			w.writeMultilineLiteralText(txt)
diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 75a9898..096430d 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"bytes"
+	"strings"
 
 	"github.com/KSpaceer/yamly/engines/yayamls/ast"
 	"github.com/KSpaceer/yamly/engines/yayamls/token"
@@ -133,6 +134,28 @@ func (p *parser) parseFlowJSONContent(ind *indentation, ctx context) ast.Node {
 	}
 }
 
+// newQuotedTextNode creates a text node for a quoted string, resolving its escape sequences.
+func (p *parser) newQuotedTextNode(
+	text string,
+	quotingType ast.QuotingType,
+	unquote func(string) (string, error),
+) ast.Node {
+	// line breaks are already folded
+	lines := strings.Split(text, "\n")
+	for i := range lines {
+		line, err := unquote(lines[i])
+		if err != nil {
+			return ast.NewInvalidNode()
+		}
+		lines[i] = line
+	}
+	return ast.NewTextNode(
+		text,
+		ast.WithQuotingType(quotingType),
+		ast.WithValue(strings.Join(lines, "\n")),
+	)
+}
+
 // YAML specification: [109] c-double-quoted
 func (p *parser) parseDoubleQuoted(ind *indentation, ctx context) ast.Node {
 	if p.hasErrors() || p.tok.Type != token.DoubleQuoteType {
@@ -177,7 +200,7 @@ func (p *parser) parseDoubleOneLine() ast.Node {
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
-	return ast.NewTextNode(text, ast.WithQuotingType(ast.DoubleQuotingType))
+	return p.newQuotedTextNode(text, ast.DoubleQuotingType, yamlchar.ConvertFromYAMLDoubleQuotedString)
 }
 
 // YAML specification: [116] nb-double-multi-line
@@ -209,7 +232,7 @@ func (p *parser) parseDoubleMultiLine(ind *indentation) ast.Node {
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
-	return ast.NewTextNode(text, ast.WithQuotingType(ast.DoubleQuotingType))
+	return p.newQuotedTextNode(text, ast.DoubleQuotingType, yamlchar.ConvertFromYAMLDoubleQuotedString)
 }
 
 // YAML specification: [115] s-double-next-line
@@ -352,7 +375,7 @@ func (p *parser) parseSingleOneLine() ast.Node {
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
-	return ast.NewTextNode(text, ast.WithQuotingType(ast.SingleQuotingType))
+	return p.newQuotedTextNode(text, ast.SingleQuotingType, yamlchar.ConvertFromYAMLSingleQuotedString)
 }
 
 // YAML specification: [125] nb-single-multi-line
@@ -384,7 +407,7 @@ func (p *parser) parseSingleMultiLine(ind *indentation) ast.Node {
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
-	return ast.NewTextNode(text, ast.WithQuotingType(ast.SingleQuotingType))
+	return p.newQuotedTextNode(text, ast.SingleQuotingType, yamlchar.ConvertFromYAMLSingleQuotedString)
 }
 
 // YAML specification: [124] s-single-next-line
diff --git a/engines/yayamls/schema/schema.go b/engines/yayamls/schema/schema.go
index 828d012..1c24e1b 100644
--- a/engines/yayamls/schema/schema.go
+++ b/engines/yayamls/schema/schema.go
@@ -18,7 +18,7 @@ func IsNull(n ast.Node) bool {
 		return true
 	case ast.TextType:
 		txtNode := n.(*ast.TextNode) // nolint: forcetypeassert
-		txt := txtNode.Text()
+		txt := txtNode.Value()
 		return schema.IsNull(txt) &&
 			(txtNode.QuotingType() == ast.UnknownQuotingType ||
 				txtNode.QuotingType() == ast.AbsentQuotingType)
@@ -31,7 +31,7 @@ func IsBoolean(n ast.Node) bool {
 		return false
 	}
 	txtNode := n.(*ast.TextNode) // nolint: forcetypeassert
-	txt := txtNode.Text()
+	txt := txtNode.Value()
 	return schema.IsBoolean(txt)
 }
 
@@ -48,7 +48,7 @@ func IsInteger(n ast.Node) bool {
 		return false
 	}
 	txtNode := n.(*ast.TextNode) // nolint: forcetypeassert
-	txt := txtNode.Text()
+	txt := txtNode.Value()
 	return schema.IsInteger(txt)
 }
 
@@ -57,7 +57,7 @@ func IsUnsignedInteger(n ast.Node) bool {
 		return false
 	}
 	txtNode := n.(*ast.TextNode) // nolint: forcetypeassert
-	txt := txtNode.Text()
+	txt := txtNode.Value()
 	return schema.IsUnsignedInteger(txt)
 }
 
@@ -82,7 +82,7 @@ func IsFloat(n ast.Node) bool {
 		return false
 	}
 	txtNode := n.(*ast.TextNode) // nolint: forcetypeassert
-	txt := txtNode.Text()
+	txt := txtNode.Value()
 	return schema.IsFloat(txt)
 }
 
@@ -99,7 +99,7 @@ func IsBinary(n ast.Node) bool {
 		return false
 	}
 	txtNode := n.(*ast.TextNode) // nolint: forcetypeassert
-	txt := txtNode.Text()
+	txt := txtNode.Value()
 	return schema.IsBinary(txt)
 }
 
@@ -108,7 +108,7 @@ func IsMergeKey(n ast.Node) bool {
 		return false
 	}
 	txtNode := n.(*ast.TextNode) // nolint: forcetypeassert
-	txt := txtNode.Text()
+	txt := txtNode.Value()
 	return txt == MergeKey
 }
 
@@ -117,7 +117,7 @@ func IsTimestamp(n ast.Node) bool {
 		return false
 	}
 	txtNode := n.(*ast.TextNode) // nolint: forcetypeassert
-	txt := txtNode.Text()
+	txt := txtNode.Value()
 	return schema.IsTimestamp(txt)
 }
 
-- 
2.43.0


From a5a13d80d8d1fc5649dfeab2e75e9ff8f4ad83bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:37 +0000
Subject: [PATCH 07/72] fix: treat block scalars as strings regardless of their
 content in yayamls

---
 engines/yayamls/parser/block.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 066878b..b6e1d58 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -496,7 +496,8 @@ func (p *parser) parseFoldedContent(ind *indentation, chomping ast.ChompingType)
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
-	return ast.NewTextNode(text)
+	// block scalar is always a string, so it can't be treated (or written) as a plain one
+	return ast.NewTextNode(text, ast.WithQuotingType(ast.DoubleQuotingType))
 }
 
 // YAML specification: [181] l-nb-diff-lines
@@ -790,7 +791,8 @@ func (p *parser) parseLiteralContent(ind *indentation, chomping ast.ChompingType
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
-	return ast.NewTextNode(text)
+	// block scalar is always a string, so it can't be treated (or written) as a plain one
+	return ast.NewTextNode(text, ast.WithQuotingType(ast.DoubleQuotingType))
 }
 
 // YAML specification: [165] b-chomped-last
-- 
2.43.0


From 539d82917040d9ed57d47b528c61105518db2262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:01 +0000
Subject: [PATCH 08/72] fix: allow quotes, exclamation and percent marks inside
 of plain scalars in yayamls

---
 engines/yayamls/lexer/context.go | 58 +++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 6efc386..faabbba 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -189,11 +189,13 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.TagCharacter:
-		c.switchContext(tagContextType)
-		tok.End = t.pos
-		tok.Type = token.TagType
-		tok.Origin = string([]rune{r})
-		return tok, true
+		if t.lookbehind(token.MayPrecedeWord) {
+			c.switchContext(tagContextType)
+			tok.End = t.pos
+			tok.Type = token.TagType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.LiteralCharacter:
 		if t.lookbehind(token.MayPrecedeWord) {
 			c.switchContext(multilineBlockStartContextType)
@@ -211,22 +213,28 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.SingleQuoteCharacter:
-		c.switchContext(singleQuoteContextType)
-		tok.End = t.pos
-		tok.Type = token.SingleQuoteType
-		tok.Origin = string([]rune{r})
-		return tok, true
+		if t.lookbehind(token.MayPrecedeWord) {
+			c.switchContext(singleQuoteContextType)
+			tok.End = t.pos
+			tok.Type = token.SingleQuoteType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.DoubleQuoteCharacter:
-		c.switchContext(doubleQuoteContextType)
-		tok.End = t.pos
-		tok.Type = token.DoubleQuoteType
-		tok.Origin = string([]rune{r})
-		return tok, true
+		if t.lookbehind(token.MayPrecedeWord) {
+			c.switchContext(doubleQuoteContextType)
+			tok.End = t.pos
+			tok.Type = token.DoubleQuoteType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.DirectiveCharacter:
-		tok.End = t.pos
-		tok.Type = token.DirectiveType
-		tok.Origin = string([]rune{r})
-		return tok, true
+		if t.lookbehind(token.MayPrecedeWord) {
+			tok.End = t.pos
+			tok.Type = token.DirectiveType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.DocumentEndCharacter:
 		if t.lookahead(3, func(runes []rune) bool {
 			return runes[0] == runes[1] && runes[1] == yamlchar.DocumentEndCharacter &&
@@ -312,11 +320,13 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.TagCharacter:
-		c.switchContext(tagContextType)
-		tok.End = t.pos
-		tok.Type = token.TagType
-		tok.Origin = string([]rune{r})
-		return tok, true
+		if t.lookbehind(mayPrecedeWordInFlow) {
+			c.switchContext(tagContextType)
+			tok.End = t.pos
+			tok.Type = token.TagType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.SingleQuoteCharacter:
 		if t.lookbehind(func(tok token.Token) bool {
 			return mayPrecedeWordInFlow(tok) || tok.Type == token.MappingValueType
-- 
2.43.0


From 08607f1788a1e86bf5749bcdb06abaa0c9cf9cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:14 +0000
Subject: [PATCH 09/72] fix: keep lexer context after block scalar lines
 starting with indicators, parse empty last sequence entry

---
 engines/yayamls/lexer/context.go | 7 +++++++
 engines/yayamls/parser/block.go  | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index faabbba..292d2ff 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -66,6 +66,13 @@ func (c *context) whitespaceRevertContext() {
 }
 
 func (c *context) lineBreakRevertContext() {
+	if c.rawMode {
+		// raw text is met only in block context, so any context started
+		// by indicators of raw line (e.g. quotes) is not relevant anymore.
+		c.ctxStack = c.ctxStack[:0]
+		c.escaped = false
+		return
+	}
 	ctxType := c.currentType()
 	for {
 		switch ctxType {
diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index b6e1d58..4c8c1fb 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -324,7 +324,7 @@ func (p *parser) parseBlockSequenceEntry(ind *indentation) ast.Node {
 	}
 	p.next()
 	switch p.tok.Type {
-	case token.SpaceType, token.TabType, token.LineBreakType:
+	case token.SpaceType, token.TabType, token.LineBreakType, token.EOFType:
 		return p.parseBlockIndented(ind, blockInContext)
 	default:
 		return ast.NewInvalidNode()
-- 
2.43.0


From 0243e4407f4cafb0353e10c103c0b50fc62cf033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:12 +0000
Subject: [PATCH 10/72] fix: report yayamls parsing error when the rest of
 source is not parsed

---
 engines/yayamls/parser/documents.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engines/yayamls/parser/documents.go b/engines/yayamls/parser/documents.go
index c023eb4..3400152 100644
--- a/engines/yayamls/parser/documents.go
+++ b/engines/yayamls/parser/documents.go
@@ -68,6 +68,11 @@ func (p *parser) parseStream() ast.Node {
 		docs = append(docs, doc)
 	}
 
+	if !p.hasErrors() && p.tok.Type != token.EOFType {
+		// the rest of the stream can't be parsed as a document
+		p.appendError(DeadEndError{Pos: p.tok.Start})
+	}
+
 	return ast.NewStreamNode(docs)
 }
 
-- 
2.43.0


From 6cd6d6393d70d1ba95a95f07c56c8ce21ff89659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:27 +0000
Subject: [PATCH 11/72] fix: report a second root, unfinished collections and a
 pending mapping key in AST builders

---
 engines/goyaml/encode/builder.go  | 18 +++++++++++++++++-
 engines/yayamls/encode/builder.go | 11 ++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index 681d980..2763fc8 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -131,6 +131,8 @@ func (b *ASTBuilder) EndMapping() {
 			"failed to end mapping: expected mapping, but currenlty at %s",
 			kindToString(currentNode.Kind),
 		)
+	case hasPendingKey(currentNode):
+		b.fatalError = fmt.Errorf("failed to end mapping: the last mapping entry has no value")
 	default:
 		b.popNode()
 	}
@@ -172,6 +174,9 @@ func (b *ASTBuilder) InsertRawText(data []byte, err error) {
 func (b *ASTBuilder) Result() (*yaml.Node, error) {
 	root := b.root
 	err := b.fatalError
+	if err == nil && len(b.route) > 0 {
+		err = fmt.Errorf("tree is not finished: currently at %s", kindToString(b.currentNode().Kind))
+	}
 	b.route = b.route[:0]
 	b.root = nil
 	b.fatalError = nil
@@ -195,8 +200,14 @@ func (b *ASTBuilder) insertNode(n *yaml.Node, pushToRoute bool) {
 	}
 	currentNode := b.currentNode()
 	if currentNode == nil {
-		b.pushNode(n)
+		if b.root != nil {
+			b.fatalError = fmt.Errorf("cannot insert new node to tree: tree is already finished")
+			return
+		}
 		b.root = n
+		if pushToRoute {
+			b.pushNode(n)
+		}
 		return
 	}
 
@@ -232,6 +243,11 @@ func (b *ASTBuilder) popNode() {
 	b.route = b.route[:len(b.route)-1]
 }
 
+// hasPendingKey shows if the last entry of mapping has a key, but does not have a value.
+func hasPendingKey(mapping *yaml.Node) bool {
+	return len(mapping.Content)%2 != 0
+}
+
 func isMultiline(s string) bool {
 	return strings.ContainsRune(s, '\n')
 }
diff --git a/engines/yayamls/encode/builder.go b/engines/yayamls/encode/builder.go
index f795bfb..d5c57ba 100644
--- a/engines/yayamls/encode/builder.go
+++ b/engines/yayamls/encode/builder.go
@@ -152,6 +152,9 @@ func (b *ASTBuilder) InsertRawText(text []byte, err error) {
 func (b *ASTBuilder) Result() (ast.Node, error) {
 	root := b.root
 	err := b.fatalError
+	if err == nil && len(b.route) > 0 {
+		err = fmt.Errorf("tree is not finished: currently at %s", b.currentNode().Type())
+	}
 	b.route = b.route[:0]
 	b.root = nil
 	b.fatalError = nil
@@ -174,8 +177,14 @@ func (b *ASTBuilder) insertNode(n ast.Node, pushToRoute bool) {
 	}
 	currentNode := b.currentNode()
 	if !ast.ValidNode(currentNode) {
-		b.pushNode(n)
+		if b.root != nil {
+			b.fatalError = fmt.Errorf("cannot insert new node to tree: tree is already finished")
+			return
+		}
 		b.root = n
+		if pushToRoute {
+			b.pushNode(n)
+		}
 		return
 	}
 
-- 
2.43.0


From 8f9d6d29f35e7473ccb27742927a5ea5f5392be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:37 +0000
Subject: [PATCH 12/72] fix: merge every mapping of a merge key and keep nested
 mappings of merged ones

---
 engines/goyaml/decode/any.go  | 44 +++++++++++++++++++++--------------
 engines/yayamls/decode/any.go | 44 +++++++++++++++++++++--------------
 2 files changed, 52 insertions(+), 36 deletions(-)

diff --git a/engines/goyaml/decode/any.go b/engines/goyaml/decode/any.go
index a0dbe15..dca1b0b 100644
--- a/engines/goyaml/decode/any.go
+++ b/engines/goyaml/decode/any.go
@@ -14,9 +14,6 @@ type anyBuilder struct {
 	extractString bool
 	stringValue   string
 
-	extractMergeMap bool
-	mergeMap        map[string]any
-
 	errors []error
 }
 
@@ -88,25 +85,41 @@ func (a *anyBuilder) visitMappingNode(n *yaml.Node) {
 		a.processMappingPair(key, value)
 
 		if !a.hasErrors() {
-			if a.mergeMap == nil {
+			if a.stringValue != schema.MergeKey || !mergeValue(m, a.value) {
 				m[a.stringValue] = a.value
-			} else {
-				mergeMaps(m, a.mergeMap)
-				a.mergeMap = nil
 			}
 		}
 	}
 
-	switch {
-	case a.extractMergeMap:
-		a.mergeMap = m
-	case a.extractString:
+	if a.extractString {
 		a.stringValue = fmt.Sprint(m)
-	default:
+	} else {
 		a.value = m
 	}
 }
 
+// mergeValue adds entries of src, which is either a mapping or a sequence of mappings,
+// to dst. It returns false if src can't be merged.
+func mergeValue(dst map[string]any, src any) bool {
+	switch src := src.(type) {
+	case map[string]any:
+		mergeMaps(dst, src)
+		return true
+	case []any:
+		for _, elem := range src {
+			if _, ok := elem.(map[string]any); !ok {
+				return false
+			}
+		}
+		for _, elem := range src {
+			mergeMaps(dst, elem.(map[string]any)) // nolint: forcetypeassert
+		}
+		return true
+	default:
+		return false
+	}
+}
+
 func mergeMaps(dst, src map[string]any) {
 	for k, v := range src {
 		if _, ok := dst[k]; !ok {
@@ -116,14 +129,10 @@ func mergeMaps(dst, src map[string]any) {
 }
 
 func (a *anyBuilder) processMappingPair(keyNode, valueNode *yaml.Node) {
-	savedExtractString, savedExtractMergeMap := a.extractString, a.extractMergeMap
+	savedExtractString := a.extractString
 
 	a.extractString = true
 	a.visitNode(keyNode)
-	if a.stringValue == schema.MergeKey {
-		a.extractMergeMap = true
-	}
-
 	key := a.stringValue
 	a.extractString = false
 
@@ -131,7 +140,6 @@ func (a *anyBuilder) processMappingPair(keyNode, valueNode *yaml.Node) {
 
 	a.stringValue = key
 	a.extractString = savedExtractString
-	a.extractMergeMap = savedExtractMergeMap
 }
 
 func (a *anyBuilder) visitScalarNode(n *yaml.Node) {
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index 7e9cfd4..ab7dde7 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -14,9 +14,6 @@ type anyBuilder struct {
 	extractString bool
 	stringValue   string
 
-	extractMergeMap bool
-	mergeMap        map[string]any
-
 	anchors *anchorsKeeper
 	errors  []error
 }
@@ -91,24 +88,40 @@ func (a *anyBuilder) VisitMappingNode(n *ast.MappingNode) {
 	for _, entry := range entries {
 		a.visitNode(entry)
 		if !a.hasErrors() {
-			if a.mergeMap == nil {
+			if a.stringValue != schema.MergeKey || !mergeValue(m, a.value) {
 				m[a.stringValue] = a.value
-			} else {
-				mergeMaps(m, a.mergeMap)
-				a.mergeMap = nil
 			}
 		}
 	}
-	switch {
-	case a.extractMergeMap:
-		a.mergeMap = m
-	case a.extractString:
+	if a.extractString {
 		a.stringValue = fmt.Sprint(m)
-	default:
+	} else {
 		a.value = m
 	}
 }
 
+// mergeValue adds entries of src, which is either a mapping or a sequence of mappings,
+// to dst. It returns false if src can't be merged.
+func mergeValue(dst map[string]any, src any) bool {
+	switch src := src.(type) {
+	case map[string]any:
+		mergeMaps(dst, src)
+		return true
+	case []any:
+		for _, elem := range src {
+			if _, ok := elem.(map[string]any); !ok {
+				return false
+			}
+		}
+		for _, elem := range src {
+			mergeMaps(dst, elem.(map[string]any)) // nolint: forcetypeassert
+		}
+		return true
+	default:
+		return false
+	}
+}
+
 func mergeMaps(dst, src map[string]any) {
 	for k, v := range src {
 		if _, ok := dst[k]; !ok {
@@ -118,14 +131,10 @@ func mergeMaps(dst, src map[string]any) {
 }
 
 func (a *anyBuilder) VisitMappingEntryNode(n *ast.MappingEntryNode) {
-	savedExtractString, savedExtractMergeMap := a.extractString, a.extractMergeMap
+	savedExtractString := a.extractString
 
 	a.extractString = true
 	a.visitNode(n.Key())
-	if a.stringValue == schema.MergeKey {
-		a.extractMergeMap = true
-	}
-
 	key := a.stringValue
 	a.extractString = false
 
@@ -133,7 +142,6 @@ func (a *anyBuilder) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 
 	a.stringValue = key
 	a.extractString = savedExtractString
-	a.extractMergeMap = savedExtractMergeMap
 }
 
 func (a *anyBuilder) VisitNullNode(*ast.NullNode) {
-- 
2.43.0


From e58cbf12e644d12f64335bf2acecb7cf15adc26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:11 +0000
Subject: [PATCH 13/72] fix: report an alias to an anchor containing it instead
 of overflowing the stack

---
 engines/goyaml/decode/any.go     | 18 +++++++++++++++++-
 engines/goyaml/decode/raw.go     | 25 +++++++++++++++++++------
 engines/goyaml/decode/reader.go  | 20 +++++++++++++++++++-
 engines/yayamls/decode/any.go    | 18 +++++++++++++++---
 engines/yayamls/decode/reader.go | 13 +++++++++++++
 5 files changed, 83 insertions(+), 11 deletions(-)

diff --git a/engines/goyaml/decode/any.go b/engines/goyaml/decode/any.go
index dca1b0b..3c45ccc 100644
--- a/engines/goyaml/decode/any.go
+++ b/engines/goyaml/decode/any.go
@@ -14,6 +14,9 @@ type anyBuilder struct {
 	extractString bool
 	stringValue   string
 
+	// nodes being visited through aliases
+	aliased map[*yaml.Node]struct{}
+
 	errors []error
 }
 
@@ -40,8 +43,21 @@ func (a *anyBuilder) visitNode(n *yaml.Node) {
 	case yaml.ScalarNode:
 		a.visitScalarNode(n)
 	case yaml.AliasNode:
-		a.visitNode(n.Alias)
+		a.visitAliasNode(n)
+	}
+}
+
+func (a *anyBuilder) visitAliasNode(n *yaml.Node) {
+	if _, ok := a.aliased[n.Alias]; ok {
+		a.appendError(AliasDereferenceError{name: n.Value})
+		return
+	}
+	if a.aliased == nil {
+		a.aliased = map[*yaml.Node]struct{}{}
 	}
+	a.aliased[n.Alias] = struct{}{}
+	a.visitNode(n.Alias)
+	delete(a.aliased, n.Alias)
 }
 
 func (a *anyBuilder) visitSequenceNode(n *yaml.Node) {
diff --git a/engines/goyaml/decode/raw.go b/engines/goyaml/decode/raw.go
index d9c60f5..33ac578 100644
--- a/engines/goyaml/decode/raw.go
+++ b/engines/goyaml/decode/raw.go
@@ -20,6 +20,7 @@ import "gopkg.in/yaml.v3"
 type rawTransformer struct {
 	topLevelAnchor string
 	metAnchors     map[string]struct{}
+	visiting       map[*yaml.Node]struct{}
 
 	dereferencedAliases []dereferencedAliasInfo
 }
@@ -27,6 +28,7 @@ type rawTransformer struct {
 func newRawTransformer() rawTransformer {
 	return rawTransformer{
 		metAnchors: map[string]struct{}{},
+		visiting:   map[*yaml.Node]struct{}{},
 	}
 }
 
@@ -36,23 +38,31 @@ type dereferencedAliasInfo struct {
 	idx    int
 }
 
-func (rt *rawTransformer) transform(n *yaml.Node) *yaml.Node {
+func (rt *rawTransformer) transform(n *yaml.Node) (*yaml.Node, error) {
 	rt.topLevelAnchor = n.Anchor
 	n.Anchor = ""
-	rt.visitNode(n)
+	err := rt.visitNode(n)
 	if n.Kind == yaml.AliasNode {
 		n = n.Alias
 	}
-	return n
+	return n, err
 }
 
-func (rt *rawTransformer) visitNode(n *yaml.Node) {
+func (rt *rawTransformer) visitNode(n *yaml.Node) error {
+	if _, ok := rt.visiting[n]; ok {
+		return AliasDereferenceError{name: n.Value}
+	}
+	rt.visiting[n] = struct{}{}
+	defer delete(rt.visiting, n)
+
 	if n.Anchor != "" {
 		rt.metAnchors[n.Anchor] = struct{}{}
 	}
 	switch n.Kind {
 	case yaml.AliasNode:
-		rt.visitNode(n.Alias)
+		if err := rt.visitNode(n.Alias); err != nil {
+			return AliasDereferenceError{name: n.Value}
+		}
 	case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode:
 		for i, child := range n.Content {
 			if child.Kind == yaml.AliasNode {
@@ -65,9 +75,12 @@ func (rt *rawTransformer) visitNode(n *yaml.Node) {
 					})
 				}
 			}
-			rt.visitNode(child)
+			if err := rt.visitNode(child); err != nil {
+				return err
+			}
 		}
 	}
+	return nil
 }
 
 func (rt *rawTransformer) restore(n *yaml.Node) {
diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 5151296..43536b4 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -322,7 +322,11 @@ func (r *ASTReader) Raw() []byte {
 	}
 	curNode := r.currentNode()
 	transformer := newRawTransformer()
-	v, err := yaml.Marshal(transformer.transform(curNode))
+	var v []byte
+	transformed, err := transformer.transform(curNode)
+	if err == nil {
+		v, err = yaml.Marshal(transformed)
+	}
 	transformer.restore(curNode)
 	if err != nil {
 		r.appendError(err)
@@ -385,6 +389,10 @@ func (r *ASTReader) visitNode(n *yaml.Node) {
 	case yaml.ScalarNode:
 		r.visitScalarNode(n)
 	case yaml.AliasNode:
+		if r.isUnfinished(n.Alias) {
+			r.appendError(AliasDereferenceError{name: n.Value})
+			return
+		}
 		// the anchored node takes the place of the alias: once it is processed,
 		// the alias is processed too.
 		r.swapRoutePoint(routePoint{
@@ -495,6 +503,16 @@ func (r *ASTReader) currentNode() *yaml.Node {
 	return r.route[len(r.route)-1].node
 }
 
+// isUnfinished shows if the node is a collection which is being processed.
+func (r *ASTReader) isUnfinished(n *yaml.Node) bool {
+	for i := range r.route {
+		if r.route[i].node == n {
+			return true
+		}
+	}
+	return false
+}
+
 func (r *ASTReader) pushRoutePoint(point routePoint) {
 	r.route = append(r.route, point)
 }
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index ab7dde7..a7a51d5 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -15,6 +15,8 @@ type anyBuilder struct {
 	stringValue   string
 
 	anchors *anchorsKeeper
+	// aliases being dereferenced
+	aliases map[string]struct{}
 	errors  []error
 }
 
@@ -43,12 +45,22 @@ func (a *anyBuilder) VisitAnchorNode(n *ast.AnchorNode) {
 }
 
 func (a *anyBuilder) VisitAliasNode(n *ast.AliasNode) {
-	anchored, err := a.anchors.DereferenceAlias(n.Text())
+	alias := n.Text()
+	if _, ok := a.aliases[alias]; ok {
+		a.appendError(AliasDereferenceError{name: alias})
+		return
+	}
+	anchored, err := a.anchors.DereferenceAlias(alias)
 	if err != nil {
 		a.appendError(err)
-	} else {
-		a.visitNode(anchored)
+		return
+	}
+	if a.aliases == nil {
+		a.aliases = map[string]struct{}{}
 	}
+	a.aliases[alias] = struct{}{}
+	a.visitNode(anchored)
+	delete(a.aliases, alias)
 }
 
 func (a *anyBuilder) VisitTextNode(n *ast.TextNode) {
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 7febae9..7a421e5 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -388,6 +388,9 @@ func (r *ASTReader) VisitAnchorNode(n *ast.AnchorNode) {
 
 func (r *ASTReader) VisitAliasNode(n *ast.AliasNode) {
 	anchored, err := r.anchors.DereferenceAlias(n.Text())
+	if err == nil && r.isUnfinished(anchored) {
+		err = AliasDereferenceError{name: n.Text()}
+	}
 	if err != nil {
 		r.appendError(err)
 	} else {
@@ -593,6 +596,16 @@ func (r *ASTReader) currentNode() ast.Node {
 	return r.route[len(r.route)-1].node
 }
 
+// isUnfinished shows if the node is a collection which is being processed.
+func (r *ASTReader) isUnfinished(n ast.Node) bool {
+	for i := range r.route {
+		if r.route[i].node == n {
+			return true
+		}
+	}
+	return false
+}
+
 func (r *ASTReader) pushRoutePoint(point routePoint) {
 	r.route = append(r.route, point)
 }
-- 
2.43.0


From f2451c06af6c1cb0df13c57aed3783985c3840e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:40 +0000
Subject: [PATCH 14/72] fix: keep anchors of skipped and raw subtrees and of
 aliased content in yayamls reader

---
 engines/yayamls/decode/anchors.go | 33 +++++++++++++++++++++++++++++++
 engines/yayamls/decode/any.go     |  9 +++++++--
 engines/yayamls/decode/reader.go  | 26 +++++++++++++++++++-----
 engines/yayamls/encode/writer.go  | 12 +++++++++++
 4 files changed, 73 insertions(+), 7 deletions(-)

diff --git a/engines/yayamls/decode/anchors.go b/engines/yayamls/decode/anchors.go
index 917c47d..f84758d 100644
--- a/engines/yayamls/decode/anchors.go
+++ b/engines/yayamls/decode/anchors.go
@@ -1,6 +1,8 @@
 package decode
 
 import (
+	"maps"
+
 	"github.com/KSpaceer/yamly/engines/yayamls/ast"
 )
 
@@ -36,6 +38,37 @@ func (ak *anchorsKeeper) DereferenceAlias(alias string) (ast.Node, error) {
 	return anchored, nil
 }
 
+// storeSubtree stores anchors of the subtree, which is not going to be visited.
+func (ak *anchorsKeeper) storeSubtree(n ast.Node) {
+	if !ast.ValidNode(n) {
+		return
+	}
+	switch n := n.(type) {
+	case *ast.ContentNode:
+		if properties, ok := n.Properties().(*ast.PropertiesNode); ok && ast.ValidNode(properties) {
+			if anchor, ok := properties.Anchor().(*ast.AnchorNode); ok && ast.ValidNode(anchor) {
+				ak.anchors[anchor.Text()] = n.Content()
+			}
+		}
+		ak.storeSubtree(n.Content())
+	case *ast.SequenceNode:
+		for _, entry := range n.Entries() {
+			ak.storeSubtree(entry)
+		}
+	case *ast.MappingNode:
+		for _, entry := range n.Entries() {
+			ak.storeSubtree(entry)
+		}
+	case *ast.MappingEntryNode:
+		ak.storeSubtree(n.Key())
+		ak.storeSubtree(n.Value())
+	}
+}
+
+func (ak *anchorsKeeper) clone() *anchorsKeeper {
+	return &anchorsKeeper{anchors: maps.Clone(ak.anchors)}
+}
+
 func (ak *anchorsKeeper) clear() {
 	clear(ak.anchors)
 	ak.metAnchor = false
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index a7a51d5..4ff3130 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -15,14 +15,17 @@ type anyBuilder struct {
 	stringValue   string
 
 	anchors *anchorsKeeper
+	// aliased shows that the value is reached through an alias
+	aliased bool
 	// aliases being dereferenced
 	aliases map[string]struct{}
 	errors  []error
 }
 
-func newAnyBuilder(anchors *anchorsKeeper) anyBuilder {
+func newAnyBuilder(anchors *anchorsKeeper, aliased bool) anyBuilder {
 	return anyBuilder{
 		anchors: anchors,
+		aliased: aliased,
 	}
 }
 
@@ -41,7 +44,9 @@ func (a *anyBuilder) VisitStreamNode(*ast.StreamNode) {
 func (*anyBuilder) VisitTagNode(*ast.TagNode) {}
 
 func (a *anyBuilder) VisitAnchorNode(n *ast.AnchorNode) {
-	a.anchors.StoreAnchor(n.Text())
+	if !a.aliased && len(a.aliases) == 0 {
+		a.anchors.StoreAnchor(n.Text())
+	}
 }
 
 func (a *anyBuilder) VisitAliasNode(n *ast.AliasNode) {
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 7a421e5..e6d8b60 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -74,6 +74,8 @@ type routePoint struct {
 	visitingResult visitingResult
 	node           ast.Node
 	iter           nodeIterator
+	// aliased shows that the node is reached through an alias
+	aliased bool
 }
 
 type expecter interface {
@@ -308,7 +310,7 @@ func (r *ASTReader) Any() any {
 		r.latestDenyError = nil
 		return nil
 	}
-	valueBuilder := newAnyBuilder(&r.anchors)
+	valueBuilder := newAnyBuilder(&r.anchors, r.peekRoutePoint().aliased)
 	v, err := valueBuilder.extractAnyValue(r.currentNode())
 	if err != nil {
 		r.appendError(err)
@@ -329,7 +331,11 @@ func (r *ASTReader) Raw() []byte {
 		r.latestDenyError = nil
 		return nil
 	}
-	w := encode.NewASTWriter()
+	anchors := &r.anchors
+	if r.peekRoutePoint().aliased {
+		anchors = anchors.clone()
+	}
+	w := encode.NewASTWriter(encode.WithAnchorsKeeper(anchors))
 	v, err := w.WriteBytes(r.currentNode())
 	if err != nil {
 		r.appendError(err)
@@ -351,6 +357,9 @@ func (r *ASTReader) Node() ast.Node {
 		return nil
 	}
 	n := r.currentNode()
+	if !r.peekRoutePoint().aliased {
+		r.anchors.storeSubtree(n)
+	}
 	r.popRoutePoint()
 	return n
 }
@@ -381,7 +390,9 @@ func (r *ASTReader) VisitTagNode(n *ast.TagNode) {
 }
 
 func (r *ASTReader) VisitAnchorNode(n *ast.AnchorNode) {
-	r.anchors.StoreAnchor(n.Text())
+	if !r.peekRoutePoint().aliased {
+		r.anchors.StoreAnchor(n.Text())
+	}
 
 	r.visitTexterNode(n)
 }
@@ -397,7 +408,8 @@ func (r *ASTReader) VisitAliasNode(n *ast.AliasNode) {
 		// the anchored node takes the place of the alias: once it is processed,
 		// the alias is processed too.
 		r.swapRoutePoint(routePoint{
-			node: anchored,
+			node:    anchored,
+			aliased: true,
 		})
 		anchored.Accept(r)
 	}
@@ -532,6 +544,9 @@ func (r *ASTReader) processComplexPoint(point routePoint, childrenSize int, opts
 	r.swapRoutePoint(point)
 	switch point.visitingResult.conclusion {
 	case visitingConclusionConsume:
+		if !point.aliased {
+			r.anchors.storeSubtree(point.node)
+		}
 		r.popRoutePoint()
 	case visitingConclusionMatch:
 	case visitingConclusionDeny:
@@ -549,7 +564,8 @@ func (r *ASTReader) processComplexPoint(point routePoint, childrenSize int, opts
 
 			if ast.ValidNode(node) {
 				r.pushRoutePoint(routePoint{
-					node: node,
+					node:    node,
+					aliased: point.aliased,
 				})
 				node.Accept(r)
 			}
diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index f9d1e6a..2d6a2c9 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -3,6 +3,7 @@ package encode
 import (
 	"bytes"
 	"errors"
+	"fmt"
 	"io"
 	"strings"
 
@@ -31,6 +32,8 @@ type ASTWriter struct {
 	beforeSimple  string
 
 	metAnchors map[string]struct{}
+	// aliases being dereferenced
+	dereferencedAliases map[string]struct{}
 
 	opts writeOptions
 }
@@ -42,6 +45,8 @@ func NewASTWriter(opts ...WriteOption) *ASTWriter {
 		indentation:      defaultBasicIndentation,
 		indentationDelta: defaultIndendationDelta,
 		metAnchors:       map[string]struct{}{},
+
+		dereferencedAliases: map[string]struct{}{},
 	}
 
 	for _, opt := range opts {
@@ -158,11 +163,17 @@ func (w *ASTWriter) VisitAliasNode(n *ast.AliasNode) {
 	alias := n.Text()
 	_, hasWroteAnchor := w.metAnchors[alias]
 	if w.opts.anchorsKeeper != nil && !hasWroteAnchor {
+		if _, ok := w.dereferencedAliases[alias]; ok {
+			w.appendError(fmt.Errorf("anchor %q contains an alias to itself", alias))
+			return
+		}
 		anchored, err := w.opts.anchorsKeeper.DereferenceAlias(alias)
 		if err != nil {
 			w.appendError(err)
 		} else if ast.ValidNode(anchored) {
+			w.dereferencedAliases[alias] = struct{}{}
 			anchored.Accept(w)
+			delete(w.dereferencedAliases, alias)
 		}
 		return
 	}
@@ -371,6 +382,7 @@ func (w *ASTWriter) reset() {
 	w.beforeSimple = ""
 	w.beforeComplex = ""
 	clear(w.metAnchors)
+	clear(w.dereferencedAliases)
 }
 
 func isMultiline(s string) bool {
-- 
2.43.0


From 4b81062637c55e02e941e47b19b41a445e2d8811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:18 +0000
Subject: [PATCH 15/72] fix: return amount of entries as size of a mapping in
 goyaml reader

---
 engines/goyaml/decode/reader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 43536b4..7ad64ff 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -385,7 +385,12 @@ func (r *ASTReader) visitNode(n *yaml.Node) {
 		if point.visitingResult.conclusion == visitingConclusionUnknown {
 			point.iter = newNodeIterator(n)
 		}
-		r.processComplexPoint(point, len(n.Content))
+		size := len(n.Content)
+		if n.Kind == yaml.MappingNode {
+			// mapping content consists of both keys and values
+			size /= 2
+		}
+		r.processComplexPoint(point, size)
 	case yaml.ScalarNode:
 		r.visitScalarNode(n)
 	case yaml.AliasNode:
-- 
2.43.0


From bdb8eeca6bf453dc7d20cb59f73cb84a79c6ca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:18 +0000
Subject: [PATCH 16/72] fix: write empty collections, properties, nested
 complex keys and absent tree as valid YAML in yayamls

---
 engines/yayamls/encode/writer.go | 44 +++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 2d6a2c9..eabe975 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -113,10 +113,13 @@ func (w *ASTWriter) WriteBytes(ast ast.Node) ([]byte, error) {
 	return data, nil
 }
 
-func (w *ASTWriter) write(ast ast.Node) error {
+func (w *ASTWriter) write(tree ast.Node) error {
 	w.reset()
 
-	ast.Accept(w)
+	if !ast.ValidNode(tree) {
+		tree = ast.NewNullNode()
+	}
+	tree.Accept(w)
 	if w.hasErrors() {
 		return w.error()
 	}
@@ -207,6 +210,10 @@ func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 
 func (w *ASTWriter) VisitSequenceNode(n *ast.SequenceNode) {
 	w.writePreparedData(n)
+	if len(n.Entries()) == 0 {
+		w.buf.WriteString("[]")
+		return
+	}
 	for _, entry := range n.Entries() {
 		w.maybeWriteIndentation()
 		w.buf.WriteByte('-')
@@ -221,6 +228,10 @@ func (w *ASTWriter) VisitSequenceNode(n *ast.SequenceNode) {
 
 func (w *ASTWriter) VisitMappingNode(n *ast.MappingNode) {
 	w.writePreparedData(n)
+	if len(n.Entries()) == 0 {
+		w.buf.WriteString("{}")
+		return
+	}
 	for _, entry := range n.Entries() {
 		w.maybeWriteIndentation()
 		entry.Accept(w)
@@ -241,6 +252,11 @@ func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 
 	if isComplexKey {
 		w.decreaseIndentation()
+		w.maybeWriteIndentation()
+	}
+	if key.Type() == ast.AliasType {
+		// colon can be a part of alias name
+		w.buf.WriteByte(' ')
 	}
 	w.buf.WriteByte(':')
 	w.writeBeforeComplexElements("\n")
@@ -275,8 +291,10 @@ func (w *ASTWriter) VisitContentNode(n *ast.ContentNode) {
 	w.writePreparedData(n)
 	properties, content := n.Properties(), n.Content()
 	if ast.ValidNode(properties) {
-		w.buf.WriteByte(' ')
+		w.buf.WriteString(w.beforeSimple)
 		properties.Accept(w)
+		w.writeBeforeComplexElements("\n")
+		w.writeBeforeSimpleElements(" ")
 
 		if w.opts.anchorsKeeper != nil {
 			w.opts.anchorsKeeper.BindToLatestAnchor(n)
@@ -294,11 +312,11 @@ func (w *ASTWriter) writeBeforeSimpleElements(s string) {
 }
 
 func (w *ASTWriter) writePreparedData(n ast.Node) {
-	switch n.Type() {
-	case ast.SequenceType, ast.MappingType:
-		w.buf.WriteString(w.beforeComplex)
-	case ast.ContentType:
+	switch {
+	case n.Type() == ast.ContentType:
 		return
+	case isComplex(n):
+		w.buf.WriteString(w.beforeComplex)
 	default:
 		w.buf.WriteString(w.beforeSimple)
 	}
@@ -390,11 +408,13 @@ func isMultiline(s string) bool {
 }
 
 func isComplex(n ast.Node) bool {
-	switch n.Type() {
-	case ast.SequenceType, ast.MappingType:
-		return true
-	case ast.ContentType:
-		return isComplex(n.(*ast.ContentNode).Content()) // nolint: forcetypeassert
+	switch n := n.(type) {
+	case *ast.SequenceNode:
+		return len(n.Entries()) > 0
+	case *ast.MappingNode:
+		return len(n.Entries()) > 0
+	case *ast.ContentNode:
+		return isComplex(n.Content())
 	default:
 		return false
 	}
-- 
2.43.0


From 78d1af5eae8fa18e3a81eb34b4d35c59652dec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:18 +0000
Subject: [PATCH 17/72] fix: convert signed and zero-padded decimal integers as
 in YAML core schema

---
 engines/pkg/schema/schema.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index 4898acc..af758cc 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -84,7 +84,8 @@ func FromInteger(val int64) string {
 
 // ToInteger tries to convert YAML into Go integer with given bit size.
 func ToInteger(src string, bitSize int) (int64, error) {
-	return strconv.ParseInt(src, 0, bitSize)
+	digits, base := splitIntegerBase(src)
+	return strconv.ParseInt(digits, base, bitSize)
 }
 
 // FromUnsignedInteger converts Go unsigned integer value into YAML integer.
@@ -94,7 +95,21 @@ func FromUnsignedInteger(val uint64) string {
 
 // ToUnsignedInteger tries to convert YAML into Go unsigned integer with given bit size.
 func ToUnsignedInteger(src string, bitSize int) (uint64, error) {
-	return strconv.ParseUint(src, 0, bitSize)
+	digits, base := splitIntegerBase(strings.TrimPrefix(src, "+"))
+	return strconv.ParseUint(digits, base, bitSize)
+}
+
+// splitIntegerBase derives base of integer according to YAML core schema: unlike Go,
+// leading zeros do not denote an octal integer.
+func splitIntegerBase(src string) (digits string, base int) {
+	switch {
+	case yamlOctalIntegerRegex.MatchString(src):
+		return src[len("0o"):], 8
+	case yamlHexadecimalIntegerRegex.MatchString(src):
+		return src[len("0x"):], 16
+	default:
+		return src, 10
+	}
 }
 
 var (
-- 
2.43.0


From 46710c6a390147d658465439cc92f3b72a4fcee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:00 +0000
Subject: [PATCH 18/72] fix: keep sub-second precision of timestamps and accept
 short date forms

---
 engines/pkg/schema/schema.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index af758cc..2613a54 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -173,9 +173,9 @@ var timestampLayouts = []string{
 	time.RFC3339Nano,
 	time.DateOnly,
 	"2006-1-2T15:4:5.999999999Z07:00", // short RFC339Nano
-	"2001-1-2t15:4:5.999999999-07:00", // lower t + time zone without 'Z'
-	"2001-1-2 15:4:5.999999999",       // space separated
-	"2001-1-2",                        // date only short form
+	"2006-1-2t15:4:5.999999999-07:00", // lower t + time zone without 'Z'
+	"2006-1-2 15:4:5.999999999",       // space separated
+	"2006-1-2",                        // date only short form
 }
 
 // IsTimestamp shows if string represents a YAML timedate.
@@ -191,7 +191,7 @@ func IsTimestamp(s string) bool {
 
 // FromTimestamp converts Go time.Time value into YAML timedate.
 func FromTimestamp(val time.Time) string {
-	return val.Format(time.RFC3339)
+	return val.Format(time.RFC3339Nano)
 }
 
 // ToTimestamp tries to convert YAML string into Go time.Time value.
-- 
2.43.0


From 5b9e1382e6ad92c6b54f95e18dbec0e3c19fa6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:06 +0000
Subject: [PATCH 19/72] fix: restore the right element on rollback after
 buffered elements are exhausted

---
 engines/yayamls/pkg/cpaccessor/accessor.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/pkg/cpaccessor/accessor.go b/engines/yayamls/pkg/cpaccessor/accessor.go
index e9fb6bd..7fda3c6 100644
--- a/engines/yayamls/pkg/cpaccessor/accessor.go
+++ b/engines/yayamls/pkg/cpaccessor/accessor.go
@@ -36,7 +36,9 @@ func (a *CheckpointingAccessor[T]) SetStream(stream ResourceStream[T]) {
 }
 
 func (a *CheckpointingAccessor[T]) Reset() {
+	var zero T
 	a.stream = nil
+	a.saved = zero
 	a.buf = a.buf[:0]
 	a.bufIndicator = withoutBuffer
 	a.checkpointsStack = a.checkpointsStack[:0]
@@ -61,7 +63,9 @@ func (a *CheckpointingAccessor[T]) Next() T {
 		a.bufIndicator++
 		if a.bufIndicator == len(a.buf) {
 			if len(a.checkpointsStack) == 0 {
-				// there are no checkpoints - buffer elements will not be used anymore
+				// there are no checkpoints - buffer elements will not be used anymore,
+				// but the last one is remembered for the first checkpoint
+				a.saved = val
 				a.buf = a.buf[:0]
 			}
 			a.bufIndicator = withoutBuffer
@@ -103,7 +107,9 @@ func (a *CheckpointingAccessor[T]) Rollback() T {
 			a.bufIndicator++
 			if a.bufIndicator == len(a.buf) {
 				// checkpoint was at the last position in buffer - we are now ahead of it.
-				if len(a.checkpointsStack) == 0 {
+				if stackLen == 1 {
+					// the last checkpoint is removed - buffer elements will not be used anymore
+					a.saved = restoredVal
 					a.buf = a.buf[:0]
 				}
 				a.bufIndicator = withoutBuffer
-- 
2.43.0


From 2cfef24d2fb289eafb81d64050e9f71614fe526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:06 +0000
Subject: [PATCH 20/72] fix: clear balance failure when balance checker is
 reset

---
 engines/yayamls/parser/internal/balancecheck/balancecheck.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engines/yayamls/parser/internal/balancecheck/balancecheck.go b/engines/yayamls/parser/internal/balancecheck/balancecheck.go
index 59ee476..e5f8567 100644
--- a/engines/yayamls/parser/internal/balancecheck/balancecheck.go
+++ b/engines/yayamls/parser/internal/balancecheck/balancecheck.go
@@ -81,4 +81,5 @@ func (b *BalanceChecker) SetMemento(m BalanceCheckerMemento) {
 
 func (b *BalanceChecker) Reset() {
 	b.stack = b.stack[:0]
+	b.cannotBeBalanced = false
 }
-- 
2.43.0


From 8aa26cb80c55c33f45cc28d6d5d149f02eeb3f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:06 +0000
Subject: [PATCH 21/72] fix: recognize comments inside of flow collections in
 yayamls

---
 engines/yayamls/lexer/context.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 292d2ff..9684a74 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -354,6 +354,14 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			tok.Origin = string([]rune{r})
 			return tok, true
 		}
+	case yamlchar.CommentCharacter:
+		if t.lookbehind(token.MayPrecedeWord) {
+			c.switchContext(commentContextType)
+			tok.End = t.pos
+			tok.Type = token.CommentType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.CollectEntryCharacter:
 		tok.End = t.pos
 		tok.Type = token.CollectEntryType
-- 
2.43.0


From d07bc7a0ac44df3cbc24cefc4daaf4b95810952b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:25 +0000
Subject: [PATCH 22/72] fix: detect indentation of block scalars by their first
 non-empty line

---
 engines/yayamls/parser/block.go | 39 ++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 4c8c1fb..a8f6e60 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -464,18 +464,39 @@ func (p *parser) parseFolded(ind *indentation) ast.Node {
 	if !ok {
 		ast.NewInvalidNode()
 	}
-	foldedInd := indentation{
-		value: ind.value,
-		mode:  withLowerBoundIndentationMode,
-	}
+	foldedInd := indentation{mode: strictEqualityIndentationMode}
 	if indVal := castedHeader.IndentationIndicator(); indVal != 0 {
 		foldedInd.value = ind.value + indVal
-		foldedInd.mode = strictEqualityIndentationMode
+	} else {
+		foldedInd.value = p.detectBlockScalarIndentation(ind)
 	}
 	content := p.parseFoldedContent(&foldedInd, castedHeader.ChompingIndicator())
 	return content
 }
 
+// detectBlockScalarIndentation returns indentation of the first non-empty line of block scalar.
+// If there is no such line, returns the least indentation the content may have.
+func (p *parser) detectBlockScalarIndentation(ind *indentation) int {
+	p.setCheckpoint()
+	defer p.rollback()
+	least := ind.value + 1
+	for {
+		var detected int
+		for p.tok.Type == token.SpaceType {
+			detected++
+			p.next()
+		}
+		switch {
+		case p.tok.Type == token.LineBreakType:
+			p.next()
+		case p.tok.Type == token.EOFType || detected < least:
+			return least
+		default:
+			return detected
+		}
+	}
+}
+
 // YAML specification: [182] l-folded-content
 func (p *parser) parseFoldedContent(ind *indentation, chomping ast.ChompingType) ast.Node {
 	if p.hasErrors() {
@@ -744,13 +765,11 @@ func (p *parser) parseLiteral(ind *indentation) ast.Node {
 	if !ok {
 		return ast.NewInvalidNode()
 	}
-	literalInd := indentation{
-		value: ind.value,
-		mode:  withLowerBoundIndentationMode,
-	}
+	literalInd := indentation{mode: strictEqualityIndentationMode}
 	if indVal := castedHeader.IndentationIndicator(); indVal != 0 {
 		literalInd.value = ind.value + indVal
-		literalInd.mode = strictEqualityIndentationMode
+	} else {
+		literalInd.value = p.detectBlockScalarIndentation(ind)
 	}
 	content := p.parseLiteralContent(&literalInd, castedHeader.ChompingIndicator())
 	return content
-- 
2.43.0


From 6a98c432302c7a103b308e4c7541f92e16c2f468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:46 +0000
Subject: [PATCH 23/72] fix: recognize indicators after byte order mark in
 yayamls

---
 engines/yayamls/token/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/yayamls/token/token.go b/engines/yayamls/token/token.go
index ba912fe..46bf2f1 100644
--- a/engines/yayamls/token/token.go
+++ b/engines/yayamls/token/token.go
@@ -156,7 +156,7 @@ func IsNonBreak(tok Token) bool {
 // MayPrecedeWord shows if given token may precede word (or string).
 func MayPrecedeWord(tok Token) bool {
 	switch tok.Type {
-	case SpaceType, TabType, LineBreakType, UnknownType:
+	case SpaceType, TabType, LineBreakType, BOMType, UnknownType:
 		return true
 	default:
 		return false
-- 
2.43.0


From fa85a7c6acf883b38b92663022bdcc88832867ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:46 +0000
Subject: [PATCH 24/72] fix: do not treat brackets of block scalars as flow
 collections in yayamls

---
 engines/yayamls/parser/block.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index a8f6e60..3363fb0 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -609,6 +609,8 @@ func (p *parser) parseSpacedLines(ind *indentation, buf *bytes.Buffer) ast.Node
 
 // YAML specification: [177] s-nb-spaced-text
 func (p *parser) parseSpacedText(ind *indentation, buf *bytes.Buffer) ast.Node {
+	// indicators are just characters of block scalar
+	balance := p.balanceChecker.Memento()
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
@@ -618,9 +620,10 @@ func (p *parser) parseSpacedText(ind *indentation, buf *bytes.Buffer) ast.Node {
 	if !token.IsWhiteSpace(p.tok) {
 		return ast.NewInvalidNode()
 	}
+	p.balanceChecker.SetMemento(balance)
+	p.tokSrc.SetRawMode()
 	buf.WriteString(p.tok.Origin)
 	p.next()
-	p.tokSrc.SetRawMode()
 	for token.IsNonBreak(p.tok) {
 		buf.WriteString(p.tok.Origin)
 		p.next()
@@ -679,15 +682,18 @@ func (p *parser) parseFoldedLines(ind *indentation, buf *bytes.Buffer) ast.Node
 
 // YAML specification: [175] s-nb-folded-text
 func (p *parser) parseFoldedText(ind *indentation, buf *bytes.Buffer) ast.Node {
+	// indicators are just characters of block scalar
+	balance := p.balanceChecker.Memento()
 	if p.hasErrors() || !ast.ValidNode(p.parseIndent(ind)) {
 		return ast.NewInvalidNode()
 	}
 	if !token.IsNonBreak(p.tok) || token.IsWhiteSpace(p.tok) {
 		return ast.NewInvalidNode()
 	}
+	p.balanceChecker.SetMemento(balance)
+	p.tokSrc.SetRawMode()
 	buf.WriteString(p.tok.Origin)
 	p.next()
-	p.tokSrc.SetRawMode()
 	for token.IsNonBreak(p.tok) {
 		buf.WriteString(p.tok.Origin)
 		p.next()
@@ -948,6 +954,8 @@ func (p *parser) parseLiteralNext(ind *indentation, buf *bytes.Buffer) ast.Node
 
 // YAML specification: [171] l-nb-literal-text
 func (p *parser) parseLiteralText(ind *indentation, buf *bytes.Buffer) ast.Node {
+	// indicators are just characters of block scalar
+	balance := p.balanceChecker.Memento()
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
@@ -965,6 +973,7 @@ func (p *parser) parseLiteralText(ind *indentation, buf *bytes.Buffer) ast.Node
 	if !token.IsNonBreak(p.tok) {
 		return ast.NewInvalidNode()
 	}
+	p.balanceChecker.SetMemento(balance)
 	p.tokSrc.SetRawMode()
 	for token.IsNonBreak(p.tok) {
 		buf.WriteString(p.tok.Origin)
-- 
2.43.0


From bd56442ab9515bb97d80cc48545122fc611c744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:31 +0000
Subject: [PATCH 25/72] fix: decode a flow pair of sequence as a mapping in
 yayamls

---
 engines/yayamls/decode/any.go      |  2 +-
 engines/yayamls/decode/iterator.go | 21 ++++++++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index 4ff3130..ae73c3b 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -77,7 +77,7 @@ func (a *anyBuilder) VisitTextNode(n *ast.TextNode) {
 }
 
 func (a *anyBuilder) VisitSequenceNode(n *ast.SequenceNode) {
-	entries := n.Entries()
+	entries := sequenceEntries(n)
 	s := make([]any, 0, len(entries))
 
 	savedExtractString := a.extractString
diff --git a/engines/yayamls/decode/iterator.go b/engines/yayamls/decode/iterator.go
index aa0ac1f..122ff94 100644
--- a/engines/yayamls/decode/iterator.go
+++ b/engines/yayamls/decode/iterator.go
@@ -32,10 +32,29 @@ func newStreamIterator(s *ast.StreamNode) nodeIterator {
 func newSequenceIterator(s *ast.SequenceNode) nodeIterator {
 	return &nodeIteratorImpl{
 		i:     0,
-		nodes: s.Entries(),
+		nodes: sequenceEntries(s),
 	}
 }
 
+// sequenceEntries returns entries of the sequence. A flow pair (e.g. [key: value])
+// is a mapping with the single entry.
+func sequenceEntries(s *ast.SequenceNode) []ast.Node {
+	entries := s.Entries()
+	for i := range entries {
+		if entries[i].Type() == ast.MappingEntryType {
+			wrapped := make([]ast.Node, len(entries))
+			copy(wrapped, entries)
+			for j := range wrapped {
+				if wrapped[j].Type() == ast.MappingEntryType {
+					wrapped[j] = ast.NewMappingNode([]ast.Node{wrapped[j]})
+				}
+			}
+			return wrapped
+		}
+	}
+	return entries
+}
+
 func newMappingIterator(m *ast.MappingNode) nodeIterator {
 	return &nodeIteratorImpl{
 		i:     0,
-- 
2.43.0


From 22c090cf95bd482c66e61152670cb979ba32aa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:13 +0000
Subject: [PATCH 26/72] fix: stop decoding of a generated struct after null

---
 generator/decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator/decoder.go b/generator/decoder.go
index fefce15..2985c79 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -76,6 +76,7 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	fmt.Fprintln(g.out, "  if in.TryNull() {")
 	fmt.Fprintln(g.out, "    var zeroValue "+tname)
 	fmt.Fprintln(g.out, "    *out = zeroValue")
+	fmt.Fprintln(g.out, "    return")
 	fmt.Fprintln(g.out, "  }")
 	fmt.Fprintln(g.out)
 
-- 
2.43.0


From 5bf496a2ac33e21dad22e9f56a883a9424e1bf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:31 +0000
Subject: [PATCH 27/72] fix: skip excess elements and make byte arrays
 compilable in generated array decoders

---
 generator/decoder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 2985c79..575947a 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -226,7 +226,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 
 		if elem.Kind() == reflect.Uint8 && elem.Name() == "uint8" {
 			fmt.Fprintln(g.out, whitespace+"if !in.TryNull() {")
-			fmt.Fprintln(g.out, whitespace+"  copy("+outArg+", []byte(in.String()))")
+			fmt.Fprintln(g.out, whitespace+"  copy(("+outArg+")[:], in.String())")
 			fmt.Fprintln(g.out, whitespace+"}")
 		} else {
 			arrayStateVar := g.generateVarName("SeqState")
@@ -242,6 +242,9 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 			}
 			fmt.Fprintln(g.out, whitespace+"    "+iterVar+"++")
 			fmt.Fprintln(g.out, whitespace+"  }")
+			fmt.Fprintln(g.out, whitespace+"  for "+arrayStateVar+".HasUnprocessedItems() {")
+			fmt.Fprintln(g.out, whitespace+"    in.Skip()")
+			fmt.Fprintln(g.out, whitespace+"  }")
 			fmt.Fprintln(g.out, whitespace+"}")
 		}
 	case reflect.Struct:
-- 
2.43.0


From 12632e70834d65f144ae67171b7e7f6d3970f082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:28 +0000
Subject: [PATCH 28/72] fix: make generated code of interfaces, engine
 unmarshalers and pointers to marshalers compilable

---
 engines/goyaml/engine.go  |  9 +++++----
 engines/yayamls/engine.go |  6 +++---
 generator/decoder.go      |  7 ++++---
 generator/encoder.go      | 11 ++++++-----
 4 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/engines/goyaml/engine.go b/engines/goyaml/engine.go
index f2fc3f7..b1f1be7 100644
--- a/engines/goyaml/engine.go
+++ b/engines/goyaml/engine.go
@@ -64,8 +64,8 @@ func (engineGenerator) UnmarshalersImplementationCheck(
 	if reflect.PtrTo(t).Implements(unmarshalIface) {
 		whitespace := strings.Repeat(" ", indent)
 		fmt.Fprintln(dst, whitespace+"if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-		fmt.Fprintln(dst, whitespace+"  in.AddError(("+outArg+").UnmarshalYAML(extIn.Node())")
-		fmt.Fprintln(dst, whitespace, "} else {")
+		fmt.Fprintln(dst, whitespace+"  in.AddError(("+outArg+").UnmarshalYAML(extIn.Node()))")
+		fmt.Fprintln(dst, whitespace+"} else {")
 		return generator.ImplementationResultConditional, nil
 	}
 	return generator.ImplementationResultFalse, nil
@@ -87,11 +87,12 @@ func (engineGenerator) MarshalersImplementationCheck(
 
 func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer, outArg string, indent int) error {
 	whitespace := strings.Repeat(" ", indent)
-	fmt.Fprintln(dst, whitespace+"if m, ok := "+outArg+".(yaml.Unmarshaler); ok {")
+	fmt.Fprintln(dst, whitespace+"if m, ok := ("+outArg+").(yaml.Unmarshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-	fmt.Fprintln(dst, whitespace+"    in.AddError(m.UnmarshalYAML(extIn.Node())")
+	fmt.Fprintln(dst, whitespace+"    in.AddError(m.UnmarshalYAML(extIn.Node()))")
 	fmt.Fprintln(dst, whitespace+"  } else {")
 	fmt.Fprintln(dst, whitespace+"    "+outArg+" = in.Any()")
+	fmt.Fprintln(dst, whitespace+"  }")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	fmt.Fprintln(dst, whitespace+"  "+outArg+" = in.Any()")
 	fmt.Fprintln(dst, whitespace+"}")
diff --git a/engines/yayamls/engine.go b/engines/yayamls/engine.go
index 7c0a700..0f15496 100644
--- a/engines/yayamls/engine.go
+++ b/engines/yayamls/engine.go
@@ -79,7 +79,7 @@ func (engineGenerator) MarshalersImplementationCheck(
 ) (generator.ImplementationResult, error) {
 	marshalIface := reflect.TypeOf((*Marshaler)(nil)).Elem()
 	if reflect.PtrTo(t).Implements(marshalIface) {
-		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw("+inArg+".MarshalYAML())")
+		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw(("+inArg+").MarshalYAML())")
 		return generator.ImplementationResultTrue, nil
 	}
 	return generator.ImplementationResultFalse, nil
@@ -87,7 +87,7 @@ func (engineGenerator) MarshalersImplementationCheck(
 
 func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer, outArg string, indent int) error {
 	whitespace := strings.Repeat(" ", indent)
-	fmt.Fprintln(dst, whitespace+"if m, ok := "+outArg+".(yayamls.Unmarshaler); ok {")
+	fmt.Fprintln(dst, whitespace+"if m, ok := ("+outArg+").(yayamls.Unmarshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  in.AddError(m.UnmarshalYAML(in.Raw()))")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	fmt.Fprintln(dst, whitespace+"  "+outArg+" = in.Any()")
@@ -97,7 +97,7 @@ func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer,
 
 func (engineGenerator) GenerateMarshalEmptyInterfaceAssertions(dst io.Writer, inArg string, indent int) error {
 	whitespace := strings.Repeat(" ", indent)
-	fmt.Fprintln(dst, whitespace+"if m, ok := "+inArg+".(yayamls.Marshaler); ok {")
+	fmt.Fprintln(dst, whitespace+"if m, ok := ("+inArg+").(yayamls.Marshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  out.InsertRaw(m.MarshalYAML())")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	// TODO: add reflect-based marshaler for yayamls
diff --git a/generator/decoder.go b/generator/decoder.go
index 575947a..042df1b 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -165,6 +165,7 @@ func (g *Generator) generateDecoderBody(
 		unmarshalIface = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(unmarshalIface) {
 			fmt.Fprintln(g.out, whitespace+"in.AddError(("+outArg+").UnmarshalText([]byte(in.String())))")
+			fmt.Fprintln(g.out, finishingText)
 			return nil
 		}
 	}
@@ -311,7 +312,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementsUnmarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"_ = "+outArg+".UnmarshalYamly(in)")
+				fmt.Fprintln(g.out, whitespace+"("+outArg+").UnmarshalYamly(in)")
 			} else if implResult, err := g.engineGen.UnmarshalersImplementationCheck(g.out, t, outArg, indent); err != nil {
 				return err
 			} else {
@@ -325,8 +326,8 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 				}
 			}
 		} else {
-			fmt.Fprintln(g.out, whitespace+"if m, ok := "+outArg+".(yamly.UnmarshalerYamly); ok {")
-			fmt.Fprintln(g.out, whitespace+"  in.AddError(m.UnmarshalYamly(in))")
+			fmt.Fprintln(g.out, whitespace+"if m, ok := ("+outArg+").(yamly.UnmarshalerYamly); ok {")
+			fmt.Fprintln(g.out, whitespace+"  m.UnmarshalYamly(in)")
 			fmt.Fprintln(g.out, whitespace+"} else {")
 			if err := g.engineGen.GenerateUnmarshalEmptyInterfaceAssertions(g.out, outArg, indent+indentDelta); err != nil {
 				return err
diff --git a/generator/encoder.go b/generator/encoder.go
index 49a9bfa..0ea537b 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -164,7 +164,7 @@ func (g *Generator) generateEncoderBody(
 
 		marshalIface := reflect.TypeOf((*yamly.MarshalerYamly)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(marshalIface) {
-			fmt.Fprintln(g.out, whitespace+inArg+".MarshalYamly(out)")
+			fmt.Fprintln(g.out, whitespace+"("+inArg+").MarshalYamly(out)")
 			return nil
 		}
 
@@ -183,7 +183,8 @@ func (g *Generator) generateEncoderBody(
 
 		marshalIface = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(marshalIface) {
-			fmt.Fprintln(g.out, whitespace+"out.InsertRawText("+inArg+".MarshalText())")
+			fmt.Fprintln(g.out, whitespace+"out.InsertRawText(("+inArg+").MarshalText())")
+			fmt.Fprintln(g.out, finishingText)
 			return nil
 		}
 	}
@@ -209,7 +210,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 		fmt.Fprintf(g.out, whitespace+enc+"\n", inArg)
 		return nil
 	} else if enc := customEncoderFormatStrings[t.String()]; enc != "" {
-		g.imports[t.PkgPath()] = t.Name() // assume it is a standard library
+		g.pkgAlias(t.PkgPath()) // assume it is a standard library
 		fmt.Fprintf(g.out, whitespace+enc+"\n", inArg)
 		return nil
 	}
@@ -315,7 +316,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementMarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"_ = "+inArg+".MarshalYamly(out)")
+				fmt.Fprintln(g.out, whitespace+"("+inArg+").MarshalYamly(out)")
 			} else if implResult, err := g.engineGen.MarshalersImplementationCheck(g.out, t, inArg, indent); err != nil {
 				return err
 			} else {
@@ -329,7 +330,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 				}
 			}
 		} else {
-			fmt.Fprintln(g.out, whitespace+"if m, ok := "+inArg+".(yamly.MarshalerYamly) {")
+			fmt.Fprintln(g.out, whitespace+"if m, ok := ("+inArg+").(yamly.MarshalerYamly); ok {")
 			fmt.Fprintln(g.out, whitespace+"  m.MarshalYamly(out)")
 			fmt.Fprintln(g.out, whitespace+"} else {")
 			if err := g.engineGen.GenerateMarshalEmptyInterfaceAssertions(g.out, inArg, indent+2); err != nil {
-- 
2.43.0


From b660913c28d99bd7a372176cca26158c9153e1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:40 +0000
Subject: [PATCH 29/72] fix: decode and encode time.Time as YAML timestamp in
 generated code

---
 generator/decoder.go | 2 +-
 generator/encoder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 042df1b..69b5a55 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -163,7 +163,7 @@ func (g *Generator) generateDecoderBody(
 		}
 
 		unmarshalIface = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
-		if reflect.PtrTo(t).Implements(unmarshalIface) {
+		if customDecoders[t.String()] == "" && reflect.PtrTo(t).Implements(unmarshalIface) {
 			fmt.Fprintln(g.out, whitespace+"in.AddError(("+outArg+").UnmarshalText([]byte(in.String())))")
 			fmt.Fprintln(g.out, finishingText)
 			return nil
diff --git a/generator/encoder.go b/generator/encoder.go
index 0ea537b..20217fc 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -182,7 +182,7 @@ func (g *Generator) generateEncoderBody(
 		}
 
 		marshalIface = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
-		if reflect.PtrTo(t).Implements(marshalIface) {
+		if customEncoderFormatStrings[t.String()] == "" && reflect.PtrTo(t).Implements(marshalIface) {
 			fmt.Fprintln(g.out, whitespace+"out.InsertRawText(("+inArg+").MarshalText())")
 			fmt.Fprintln(g.out, finishingText)
 			return nil
-- 
2.43.0


From 2359da1668d4c5f9f7d3cbd43ae7ce3819a7d14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:17 +0000
Subject: [PATCH 30/72] fix: reject plain scalars starting with an indicator in
 yayamls

---
 engines/yayamls/parser/flow.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 096430d..1e2a91b 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -1079,7 +1079,7 @@ func (p *parser) parsePlainFirst(ctx context, buf *bytes.Buffer) ast.Node {
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
-	if p.tok.Type == token.StringType && isPlainSafeToken(p.tok, ctx) {
+	if p.tok.Type == token.StringType && isPlainSafeToken(p.tok, ctx) && !startsWithIndicator(p.tok) {
 		// will be parsed as part of "plain in line"
 		return ast.NewBasicNode(ast.TextType)
 	}
@@ -1113,3 +1113,8 @@ func isPlainSafeToken(tok token.Token, ctx context) bool {
 		return false
 	}
 }
+
+// startsWithIndicator shows if the token starts with an indicator which can't start a plain scalar.
+func startsWithIndicator(tok token.Token) bool {
+	return len(tok.Origin) > 0 && strings.IndexByte(",[]{}#&*!|>'\"%@`", tok.Origin[0]) != -1
+}
-- 
2.43.0


From eac4b6d4c08fc5bc571d3188899617627a308d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:17 +0000
Subject: [PATCH 31/72] fix: escape non-printable characters in written double
 quoted strings

---
 engines/yayamls/yamlchar/chars.go           | 12 ++++++++++++
 engines/yayamls/yamlchar/transformations.go |  3 ++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index 1db76b7..9d6941c 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -221,6 +221,18 @@ func IsJSONChar(r rune) bool {
 	return r == 0x09 || (r >= 0x20 && r <= 0x10FFFF)
 }
 
+// YAML specification: [1] c-printable
+func IsPrintableChar(r rune) bool {
+	switch {
+	case r == 0x09 || r == 0x0A || r == 0x0D || r == 0x85:
+		return true
+	case r >= 0x20 && r <= 0x7E, r >= 0xA0 && r <= 0xD7FF, r >= 0xE000 && r <= 0xFFFD, r >= 0x10000 && r <= 0x10FFFF:
+		return true
+	default:
+		return false
+	}
+}
+
 // YAML specification: [41-58] ns-esc-...
 const singleEscapedCharacters = "0abt\tnvfre \"/\\N_LP"
 
diff --git a/engines/yayamls/yamlchar/transformations.go b/engines/yayamls/yamlchar/transformations.go
index 2596fab..61954ed 100644
--- a/engines/yayamls/yamlchar/transformations.go
+++ b/engines/yayamls/yamlchar/transformations.go
@@ -112,7 +112,8 @@ func escapeCharacter(r rune) (string, bool) {
 }
 
 func escapeUnicodeCharacter(r rune) (string, bool) {
-	if IsJSONChar(r) {
+	// byte order mark is printable, but it is ambiguous in the content
+	if IsPrintableChar(r) && r != 0xFEFF {
 		return "", false
 	}
 	escaped := strconv.QuoteRuneToASCII(r)
-- 
2.43.0


From 8ad253c162f65456cf05d5c9720131395e4d1d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:43 +0000
Subject: [PATCH 32/72] fix: skip and serialize mapping key and value
 separately in yayamls reader

---
 engines/yayamls/decode/expected.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/expected.go b/engines/yayamls/decode/expected.go
index 1061fb5..223ca3e 100644
--- a/engines/yayamls/decode/expected.go
+++ b/engines/yayamls/decode/expected.go
@@ -264,7 +264,7 @@ func (expectRaw) name() string {
 
 func (expectRaw) process(n ast.Node, prev visitingResult) visitingResult {
 	switch n.Type() {
-	case ast.ContentType, ast.PropertiesType, ast.TagType, ast.AnchorType:
+	case ast.ContentType, ast.PropertiesType, ast.TagType, ast.AnchorType, ast.MappingEntryType:
 		return visitingResult{
 			conclusion: visitingConclusionContinue,
 		}
@@ -292,7 +292,7 @@ func (expectSkip) name() string {
 
 func (expectSkip) process(n ast.Node, prev visitingResult) visitingResult {
 	switch n.Type() {
-	case ast.ContentType, ast.PropertiesType, ast.TagType, ast.AnchorType:
+	case ast.ContentType, ast.PropertiesType, ast.TagType, ast.AnchorType, ast.MappingEntryType:
 		return visitingResult{
 			conclusion: visitingConclusionContinue,
 		}
-- 
2.43.0


From 41d5e5b9aeb452d84c5bbca0f76f77553867b7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:17 +0000
Subject: [PATCH 33/72] fix: allow flow indicators inside of plain keys of
 block mappings in yayamls

---
 engines/yayamls/parser/flow.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 1e2a91b..a8ab741 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -1105,9 +1105,9 @@ func (p *parser) parsePlainFirst(ctx context, buf *bytes.Buffer) ast.Node {
 
 func isPlainSafeToken(tok token.Token, ctx context) bool {
 	switch ctx {
-	case flowInContext, flowOutContext:
+	case flowOutContext, blockKeyContext:
 		return tok.Type == token.StringType
-	case blockKeyContext, flowKeyContext:
+	case flowInContext, flowKeyContext:
 		return tok.Type == token.StringType && tok.ConformsCharSet(yamlchar.PlainSafeCharSetType)
 	default:
 		return false
-- 
2.43.0


From a01cb5229286cd9b0a684ed6c0e4080afc3e03e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:16 +0000
Subject: [PATCH 34/72] fix: accept properties of the first key of a block
 mapping and of quoted flow keys in yayamls

---
 engines/yayamls/parser/block.go | 20 ++++++++++----------
 engines/yayamls/parser/flow.go  |  5 +++--
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 3363fb0..9e51910 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -58,19 +58,19 @@ func (p *parser) parseBlockCollection(ind *indentation, ctx context) ast.Node {
 	ind.value++
 	if ast.ValidNode(p.parseSeparate(ind, ctx)) {
 		properties = p.parseProperties(ind, ctx)
-		if !ast.ValidNode(properties) {
-			p.rollback()
-			properties = nil
-		} else {
-			p.commit()
-		}
-	} else {
-		p.rollback()
 	}
 	ind.value--
 
-	if !ast.ValidNode(p.parseComments()) {
-		return ast.NewInvalidNode()
+	// properties belong to the collection only if the collection starts on another line.
+	// Otherwise, they are properties of the first key.
+	if ast.ValidNode(properties) && ast.ValidNode(p.parseComments()) {
+		p.commit()
+	} else {
+		p.rollback()
+		properties = nil
+		if !ast.ValidNode(p.parseComments()) {
+			return ast.NewInvalidNode()
+		}
 	}
 
 	p.setCheckpoint()
diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index a8ab741..eb0b5e2 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -801,8 +801,9 @@ func (p *parser) parseFlowMappingImplicitEntry(ind *indentation, ctx context) as
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
+	// JSON-like key goes first: properties are parsed as an empty YAML key otherwise
 	p.setCheckpoint()
-	entry := p.parseFlowMappingYAMLKeyEntry(ind, ctx)
+	entry := p.parseFlowMappingJSONKeyEntry(ind, ctx)
 	if ast.ValidNode(entry) {
 		p.commit()
 		return entry
@@ -810,7 +811,7 @@ func (p *parser) parseFlowMappingImplicitEntry(ind *indentation, ctx context) as
 	p.rollback()
 
 	p.setCheckpoint()
-	entry = p.parseFlowMappingJSONKeyEntry(ind, ctx)
+	entry = p.parseFlowMappingYAMLKeyEntry(ind, ctx)
 	if ast.ValidNode(entry) {
 		p.commit()
 		return entry
-- 
2.43.0


From 92415db27b6ad110c57e9b865a5b46aacad5caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:27 +0000
Subject: [PATCH 35/72] fix: recognize document markers only at the beginning
 of a line in yayamls

---
 engines/yayamls/lexer/context.go   | 4 ++--
 engines/yayamls/lexer/tokenizer.go | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 9684a74..1f02b89 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -131,7 +131,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		if t.lookahead(3, func(runes []rune) bool {
 			return runes[0] == runes[1] && runes[1] == yamlchar.DirectiveEndCharacter &&
 				(yamlchar.IsBlankChar(runes[2]) || runes[2] == EOF)
-		}) && t.lookbehind(token.MayPrecedeWord) {
+		}) && t.atLineStart() {
 			tok.Origin = string([]rune{r, t.ra.Next(), t.ra.Next()})
 			t.pos.Column += 2
 			tok.End = t.pos
@@ -246,7 +246,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		if t.lookahead(3, func(runes []rune) bool {
 			return runes[0] == runes[1] && runes[1] == yamlchar.DocumentEndCharacter &&
 				(yamlchar.IsBlankChar(runes[2]) || runes[2] == EOF)
-		}) && t.lookbehind(token.MayPrecedeWord) {
+		}) && t.atLineStart() {
 			tok.Origin = string([]rune{r, t.ra.Next(), t.ra.Next()})
 			t.pos.Column += 2
 			tok.End = t.pos
diff --git a/engines/yayamls/lexer/tokenizer.go b/engines/yayamls/lexer/tokenizer.go
index ec5c8b7..deebb3f 100644
--- a/engines/yayamls/lexer/tokenizer.go
+++ b/engines/yayamls/lexer/tokenizer.go
@@ -138,3 +138,8 @@ func (t *Tokenizer) lookahead(count int, predicate func([]rune) bool) bool {
 func (t *Tokenizer) lookbehind(predicate func(token.Token) bool) bool {
 	return predicate(t.lookbehindTok)
 }
+
+// atLineStart shows if current rune is the first one in its line. Byte order mark is not counted.
+func (t *Tokenizer) atLineStart() bool {
+	return t.pos.Column == 1 || t.lookbehindTok.Type == token.BOMType
+}
-- 
2.43.0


From 151fb2881a515de51f57f84e0df7efe12e7e9335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:33 +0000
Subject: [PATCH 36/72] fix: accept indicators after the first word of plain
 scalars in yayamls

---
 engines/yayamls/lexer/context.go   | 32 ++++++++++++++++++++++++++++++
 engines/yayamls/lexer/tokenizer.go |  1 +
 2 files changed, 33 insertions(+)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 1f02b89..c11ca49 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -23,6 +23,9 @@ type context struct {
 	ctxStack []contextType
 	escaped  bool
 	rawMode  bool
+	// inPlain shows that a plain scalar has been started in current line, so
+	// indicators which can only start a node are its ordinary characters.
+	inPlain bool
 }
 
 func newContext() context {
@@ -88,7 +91,29 @@ func (c *context) lineBreakRevertContext() {
 	}
 }
 
+// startString is called when a string token starts after the given one.
+func (c *context) startString(prev token.Token) {
+	switch c.currentType() {
+	case blockContextType, flowContextType:
+	default:
+		return
+	}
+	switch prev.Type {
+	case token.AnchorType, token.AliasType, token.DirectiveType:
+	default:
+		c.inPlain = !c.rawMode
+	}
+}
+
 func (c *context) matchSpecialToken(t *Tokenizer, r rune) (token.Token, bool) {
+	tok, ok := c.matchByContext(t, r)
+	if ok && !token.IsWhiteSpace(tok) {
+		c.inPlain = false
+	}
+	return tok, ok
+}
+
+func (c *context) matchByContext(t *Tokenizer, r rune) (token.Token, bool) {
 	if c.rawMode {
 		return c.rawMatching(t, r)
 	}
@@ -114,6 +139,9 @@ func (c *context) matchSpecialToken(t *Tokenizer, r rune) (token.Token, bool) {
 }
 
 func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
+	if c.inPlain && r != yamlchar.MappingValueCharacter && r != yamlchar.CommentCharacter {
+		return c.baseMatching(t, r)
+	}
 	tok := token.Token{Start: t.pos}
 	switch r {
 	case yamlchar.SequenceEntryCharacter:
@@ -258,6 +286,10 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 }
 
 func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
+	if c.inPlain && r != yamlchar.MappingValueCharacter && r != yamlchar.CommentCharacter &&
+		!yamlchar.IsFlowIndicatorChar(r) {
+		return c.baseMatching(t, r)
+	}
 	tok := token.Token{Start: t.pos}
 
 	switch r {
diff --git a/engines/yayamls/lexer/tokenizer.go b/engines/yayamls/lexer/tokenizer.go
index deebb3f..88e8c55 100644
--- a/engines/yayamls/lexer/tokenizer.go
+++ b/engines/yayamls/lexer/tokenizer.go
@@ -117,6 +117,7 @@ func (t *Tokenizer) emitToken() token.Token {
 		if tok.Type == token.UnknownType {
 			tok.Type = token.StringType
 			tok.Start = curPos
+			t.ctx.startString(t.lookbehindTok)
 			t.lookbehindTok = tok
 		}
 		originBuilder.WriteRune(r)
-- 
2.43.0


From ebc43cdb436f7a77a6c1b8df18caf4eaabfae61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:16 +0000
Subject: [PATCH 37/72] fix: strip white spaces before line breaks in quoted
 scalars of yayamls

---
 engines/yayamls/parser/flow.go | 45 +++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index eb0b5e2..6a89096 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -156,6 +156,27 @@ func (p *parser) newQuotedTextNode(
 	)
 }
 
+// parseQuotedLine writes content of one line of a multiline quoted scalar to the buffer.
+// White spaces at the end of line are not a part of the content.
+func (p *parser) parseQuotedLine(charset yamlchar.CharSetType, buf *bytes.Buffer) {
+	contentLen := buf.Len()
+	for {
+		switch {
+		case p.tok.Type == token.StringType && p.tok.ConformsCharSet(charset):
+			buf.WriteString(p.tok.Origin)
+			contentLen = buf.Len()
+		case token.IsWhiteSpace(p.tok):
+			buf.WriteString(p.tok.Origin)
+		default:
+			if p.tok.Type == token.LineBreakType {
+				buf.Truncate(contentLen)
+			}
+			return
+		}
+		p.next()
+	}
+}
+
 // YAML specification: [109] c-double-quoted
 func (p *parser) parseDoubleQuoted(ind *indentation, ctx context) ast.Node {
 	if p.hasErrors() || p.tok.Type != token.DoubleQuoteType {
@@ -209,11 +230,7 @@ func (p *parser) parseDoubleMultiLine(ind *indentation) ast.Node {
 		return ast.NewInvalidNode()
 	}
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.DoubleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
-		p.next()
-	}
+	p.parseQuotedLine(yamlchar.DoubleQuotedCharSetType, buf)
 
 	savedLen := buf.Len()
 	p.setCheckpoint()
@@ -254,11 +271,7 @@ func (p *parser) parseDoubleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 	buf.WriteString(p.tok.Origin)
 	p.next()
 
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.DoubleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
-		p.next()
-	}
+	p.parseQuotedLine(yamlchar.DoubleQuotedCharSetType, buf)
 
 	p.setCheckpoint()
 	savedLen = buf.Len()
@@ -384,11 +397,7 @@ func (p *parser) parseSingleMultiLine(ind *indentation) ast.Node {
 		return ast.NewInvalidNode()
 	}
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.SingleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
-		p.next()
-	}
+	p.parseQuotedLine(yamlchar.SingleQuotedCharSetType, buf)
 
 	savedLen := buf.Len()
 	p.setCheckpoint()
@@ -427,11 +436,7 @@ func (p *parser) parseSingleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 	buf.WriteString(p.tok.Origin)
 	p.next()
 
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.SingleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
-		p.next()
-	}
+	p.parseQuotedLine(yamlchar.SingleQuotedCharSetType, buf)
 
 	p.setCheckpoint()
 	savedLen = buf.Len()
-- 
2.43.0


From 8adc2cd2e45cfee1dacffc16d5b319b531896417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:42 +0000
Subject: [PATCH 38/72] fix: accept escaped line breaks and tabs in double
 quoted scalars of yayamls

---
 engines/yayamls/lexer/context.go | 2 +-
 engines/yayamls/parser/flow.go   | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index c11ca49..c6930ca 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -463,7 +463,7 @@ func (c *context) doubleQuoteMatching(t *Tokenizer, r rune) (token.Token, bool)
 		if !c.escaped {
 			escaped = true
 		}
-	case yamlchar.SpaceCharacter:
+	case yamlchar.SpaceCharacter, yamlchar.TabCharacter:
 		if c.escaped {
 			c.escaped = false
 			return token.Token{}, false
diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 6a89096..73b4cc1 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -318,10 +318,14 @@ func (p *parser) parseDoubleEscaped(ind *indentation, buf *bytes.Buffer) ast.Nod
 		p.next()
 	}
 
-	if p.tok.Type != token.StringType || p.tok.Origin != "\\" {
+	// escape character may be preceded by the last word of the line
+	word, escaped := strings.CutSuffix(p.tok.Origin, "\\")
+	if p.tok.Type != token.StringType || !escaped ||
+		!yamlchar.ConformsCharSet(word, yamlchar.DoubleQuotedCharSetType) {
 		buf.Truncate(savedLen)
 		return ast.NewInvalidNode()
 	}
+	buf.WriteString(word)
 	p.next()
 	if p.tok.Type != token.LineBreakType {
 		buf.Truncate(savedLen)
@@ -333,6 +337,7 @@ func (p *parser) parseDoubleEscaped(ind *indentation, buf *bytes.Buffer) ast.Nod
 		savedLen := buf.Len()
 		if !ast.ValidNode(p.parseEmpty(ind, flowInContext, buf)) {
 			buf.Truncate(savedLen)
+			p.rollback()
 			break
 		}
 		p.commit()
-- 
2.43.0


From 04ec465fe0369e593b74453ddfd02fd1b1f270ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:10 +0000
Subject: [PATCH 39/72] fix: accept properties of both a block mapping and its
 first key in yayamls

---
 engines/yayamls/parser/block.go      | 33 +++++++++++++++-------------
 engines/yayamls/parser/properties.go | 15 +++++++++++++
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 9e51910..b619fef 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -51,26 +51,29 @@ func (p *parser) parseBlockCollection(ind *indentation, ctx context) ast.Node {
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
-	p.setCheckpoint()
-
 	var properties ast.Node
 
-	ind.value++
-	if ast.ValidNode(p.parseSeparate(ind, ctx)) {
-		properties = p.parseProperties(ind, ctx)
-	}
-	ind.value--
-
 	// properties belong to the collection only if the collection starts on another line.
-	// Otherwise, they are properties of the first key.
-	if ast.ValidNode(properties) && ast.ValidNode(p.parseComments()) {
-		p.commit()
-	} else {
-		p.rollback()
+	// Otherwise, they (or the second one of them) are properties of the first key.
+	for _, parseProperties := range []func(*indentation, context) ast.Node{
+		p.parseProperties, p.parseSingleProperty,
+	} {
+		p.setCheckpoint()
+		ind.value++
 		properties = nil
-		if !ast.ValidNode(p.parseComments()) {
-			return ast.NewInvalidNode()
+		if ast.ValidNode(p.parseSeparate(ind, ctx)) {
+			properties = parseProperties(ind, ctx)
+		}
+		ind.value--
+		if ast.ValidNode(properties) && ast.ValidNode(p.parseComments()) {
+			p.commit()
+			break
 		}
+		p.rollback()
+		properties = nil
+	}
+	if properties == nil && !ast.ValidNode(p.parseComments()) {
+		return ast.NewInvalidNode()
 	}
 
 	p.setCheckpoint()
diff --git a/engines/yayamls/parser/properties.go b/engines/yayamls/parser/properties.go
index 1224b38..f9c3615 100644
--- a/engines/yayamls/parser/properties.go
+++ b/engines/yayamls/parser/properties.go
@@ -98,6 +98,21 @@ func (p *parser) parseProperties(ind *indentation, ctx context) ast.Node {
 	return ast.NewPropertiesNode(tag, anchor)
 }
 
+// parseSingleProperty parses only one of properties.
+func (p *parser) parseSingleProperty(*indentation, context) ast.Node {
+	var tag, anchor ast.Node
+	switch p.tok.Type {
+	case token.TagType:
+		tag = p.parseTagProperty()
+	case token.AnchorType:
+		anchor = p.parseAnchorProperty()
+	}
+	if !ast.ValidNode(tag) && !ast.ValidNode(anchor) {
+		return ast.NewInvalidNode()
+	}
+	return ast.NewPropertiesNode(tag, anchor)
+}
+
 // YAML specification: [104] c-ns-alias-node
 func (p *parser) parseAliasNode() ast.Node {
 	if p.hasErrors() || p.tok.Type != token.AliasType {
-- 
2.43.0


From 264c8667d142de7c0ac35ae6a6120881fca8e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:48 +0000
Subject: [PATCH 40/72] fix: normalize line breaks in content of scalars in
 yayamls

---
 engines/yayamls/parser/block.go   | 8 ++++----
 engines/yayamls/parser/indents.go | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index b619fef..4c27d0f 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -537,7 +537,7 @@ func (p *parser) parseDiffLines(ind *indentation, buf *bytes.Buffer) ast.Node {
 			p.rollback()
 			break
 		}
-		buf.WriteString(p.tok.Origin)
+		buf.WriteByte('\n')
 		p.next()
 		if !ast.ValidNode(p.parseSameLines(ind, buf)) {
 			buf.Truncate(savedLen)
@@ -640,7 +640,7 @@ func (p *parser) parseSpacedLineBreak(ind *indentation, buf *bytes.Buffer) ast.N
 	if p.hasErrors() || p.tok.Type != token.LineBreakType {
 		return ast.NewInvalidNode()
 	}
-	buf.WriteString(p.tok.Origin)
+	buf.WriteByte('\n')
 
 	savedLen := buf.Len()
 
@@ -838,7 +838,7 @@ func (p *parser) parseChompedLast(chomping ast.ChompingType, buf *bytes.Buffer)
 	case ast.ClipChompingType, ast.KeepChompingType:
 		switch p.tok.Type {
 		case token.LineBreakType:
-			buf.WriteString(p.tok.Origin)
+			buf.WriteByte('\n')
 		case token.EOFType:
 		default:
 			return ast.NewInvalidNode()
@@ -946,7 +946,7 @@ func (p *parser) parseLiteralNext(ind *indentation, buf *bytes.Buffer) ast.Node
 		return ast.NewInvalidNode()
 	}
 	savedLen := buf.Len()
-	buf.WriteString(p.tok.Origin)
+	buf.WriteByte('\n')
 	p.next()
 	if !ast.ValidNode(p.parseLiteralText(ind, buf)) {
 		buf.Truncate(savedLen)
diff --git a/engines/yayamls/parser/indents.go b/engines/yayamls/parser/indents.go
index 41265d4..19e0290 100644
--- a/engines/yayamls/parser/indents.go
+++ b/engines/yayamls/parser/indents.go
@@ -144,7 +144,7 @@ func (p *parser) parseEmpty(ind *indentation, ctx context, buf *bytes.Buffer) as
 	if p.tok.Type != token.LineBreakType {
 		return ast.NewInvalidNode()
 	}
-	buf.WriteString(p.tok.Origin)
+	buf.WriteByte('\n')
 	p.next()
 	return ast.NewBasicNode(ast.IndentType)
 }
-- 
2.43.0


From 62fe1b71bd97d5fb7f6b641a4f0efdc64caecae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:23 +0000
Subject: [PATCH 41/72] fix: accept escaped line breaks in continuation lines
 of double quoted scalars in yayamls

---
 engines/yayamls/parser/flow.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 73b4cc1..414faf5 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -261,16 +261,11 @@ func (p *parser) parseDoubleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 		return ast.NewInvalidNode()
 	}
 
-	p.setCheckpoint()
-
-	if p.tok.Type != token.StringType || !p.tok.ConformsCharSet(yamlchar.DoubleQuotedCharSetType) {
-		p.rollback()
+	if p.tok.Type != token.StringType {
 		return ast.NewBasicNode(ast.TextType)
 	}
-	p.commit()
-	buf.WriteString(p.tok.Origin)
-	p.next()
 
+	// if the only word of the line is followed by an escaped line break, it is parsed with the next line
 	p.parseQuotedLine(yamlchar.DoubleQuotedCharSetType, buf)
 
 	p.setCheckpoint()
-- 
2.43.0


From e8b9f2ff196a8f74573e2b19ed19a4337358a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:28 +0000
Subject: [PATCH 42/72] fix: respect document markers, indentation indicators
 and blank lines in top-level block scalars of yayamls

---
 engines/yayamls/parser/block.go | 18 +++++++++++-------
 engines/yayamls/token/token.go  |  5 +++++
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 4c27d0f..0468965 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -469,7 +469,7 @@ func (p *parser) parseFolded(ind *indentation) ast.Node {
 	}
 	foldedInd := indentation{mode: strictEqualityIndentationMode}
 	if indVal := castedHeader.IndentationIndicator(); indVal != 0 {
-		foldedInd.value = ind.value + indVal
+		foldedInd.value = max(ind.value, 0) + indVal
 	} else {
 		foldedInd.value = p.detectBlockScalarIndentation(ind)
 	}
@@ -478,11 +478,12 @@ func (p *parser) parseFolded(ind *indentation) ast.Node {
 }
 
 // detectBlockScalarIndentation returns indentation of the first non-empty line of block scalar.
-// If there is no such line, returns the least indentation the content may have.
+// If there is no such line, returns indentation of the longest empty one.
 func (p *parser) detectBlockScalarIndentation(ind *indentation) int {
 	p.setCheckpoint()
 	defer p.rollback()
 	least := ind.value + 1
+	longest := least
 	for {
 		var detected int
 		for p.tok.Type == token.SpaceType {
@@ -492,8 +493,11 @@ func (p *parser) detectBlockScalarIndentation(ind *indentation) int {
 		switch {
 		case p.tok.Type == token.LineBreakType:
 			p.next()
-		case p.tok.Type == token.EOFType || detected < least:
-			return least
+			if detected > longest {
+				longest = detected
+			}
+		case p.tok.Type == token.EOFType || detected < least || token.IsDocumentMarker(p.tok):
+			return longest
 		default:
 			return detected
 		}
@@ -690,7 +694,7 @@ func (p *parser) parseFoldedText(ind *indentation, buf *bytes.Buffer) ast.Node {
 	if p.hasErrors() || !ast.ValidNode(p.parseIndent(ind)) {
 		return ast.NewInvalidNode()
 	}
-	if !token.IsNonBreak(p.tok) || token.IsWhiteSpace(p.tok) {
+	if !token.IsNonBreak(p.tok) || token.IsWhiteSpace(p.tok) || token.IsDocumentMarker(p.tok) {
 		return ast.NewInvalidNode()
 	}
 	p.balanceChecker.SetMemento(balance)
@@ -776,7 +780,7 @@ func (p *parser) parseLiteral(ind *indentation) ast.Node {
 	}
 	literalInd := indentation{mode: strictEqualityIndentationMode}
 	if indVal := castedHeader.IndentationIndicator(); indVal != 0 {
-		literalInd.value = ind.value + indVal
+		literalInd.value = max(ind.value, 0) + indVal
 	} else {
 		literalInd.value = p.detectBlockScalarIndentation(ind)
 	}
@@ -973,7 +977,7 @@ func (p *parser) parseLiteralText(ind *indentation, buf *bytes.Buffer) ast.Node
 	if !ast.ValidNode(p.parseIndent(ind)) {
 		return ast.NewInvalidNode()
 	}
-	if !token.IsNonBreak(p.tok) {
+	if !token.IsNonBreak(p.tok) || token.IsDocumentMarker(p.tok) {
 		return ast.NewInvalidNode()
 	}
 	p.balanceChecker.SetMemento(balance)
diff --git a/engines/yayamls/token/token.go b/engines/yayamls/token/token.go
index 46bf2f1..cbea40c 100644
--- a/engines/yayamls/token/token.go
+++ b/engines/yayamls/token/token.go
@@ -163,6 +163,11 @@ func MayPrecedeWord(tok Token) bool {
 	}
 }
 
+// IsDocumentMarker shows if provided token separates documents.
+func IsDocumentMarker(tok Token) bool {
+	return tok.Type == DirectiveEndType || tok.Type == DocumentEndType
+}
+
 // IsOpeningFlowIndicator shows if provided token represents an opening flow object
 // like mapping, sequence or their single element.
 func IsOpeningFlowIndicator(tok Token) bool {
-- 
2.43.0


From d2cb1e49ce2701bdb9f6baf6fb380de6b68d4d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:54 +0000
Subject: [PATCH 43/72] fix: reject consecutive commas in flow mappings

---
 engines/yayamls/parser/flow.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 414faf5..2ecb4d9 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -519,10 +519,10 @@ func (p *parser) parseFlowMappingEntries(ind *indentation, ctx context) ast.Node
 		entry = p.parseFlowMappingEntry(ind, ctx)
 		if !ast.ValidNode(entry) {
 			p.rollback()
-		} else {
-			entries = append(entries, entry)
-			p.commit()
+			break
 		}
+		p.commit()
+		entries = append(entries, entry)
 	}
 
 	return ast.NewMappingNode(entries)
-- 
2.43.0


From 46a606469fcbf4e78f821f6fa420c6d06a0c4f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:21 +0000
Subject: [PATCH 44/72] fix: treat flow indicators in plain scalars of flow
 mappings as malformed

---
 engines/yayamls/parser/flow.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 2ecb4d9..e58a979 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -469,7 +469,7 @@ func (p *parser) parseFlowMapping(ind *indentation, ctx context) ast.Node {
 	}
 
 	p.setCheckpoint()
-	content := p.parseFlowMappingEntries(ind, ctx)
+	content := p.parseFlowMappingEntries(ind, inFlow(ctx))
 	if ast.ValidNode(content) {
 		p.commit()
 	} else {
@@ -567,7 +567,7 @@ func (p *parser) parseFlowSequence(ind *indentation, ctx context) ast.Node {
 	}
 
 	p.setCheckpoint()
-	content := p.parseInFlow(ind, ctx)
+	content := p.parseFlowSequenceEntries(ind, inFlow(ctx))
 	if ast.ValidNode(content) {
 		p.commit()
 	} else {
@@ -582,17 +582,18 @@ func (p *parser) parseFlowSequence(ind *indentation, ctx context) ast.Node {
 	return content
 }
 
+// inFlow returns the context for the content of a flow collection located in the given context.
+//
 // YAML specification: [136] in-flow
-func (p *parser) parseInFlow(ind *indentation, ctx context) ast.Node {
+func inFlow(ctx context) context {
 	switch ctx {
-	case flowInContext, flowOutContext:
-		ctx = flowInContext
-	case blockKeyContext, flowKeyContext:
-		ctx = flowKeyContext
+	case flowOutContext:
+		return flowInContext
+	case blockKeyContext:
+		return flowKeyContext
 	default:
-		return ast.NewInvalidNode()
+		return ctx
 	}
-	return p.parseFlowSequenceEntries(ind, ctx)
 }
 
 // YAML specification: [138] ns-s-flow-seq-entries
-- 
2.43.0


From 4dd4546df51bdad4ecc772b29f2bc837ab674fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:44 +0000
Subject: [PATCH 45/72] fix: parse deeply nested flow collections

---
 engines/yayamls/parser/flow.go | 41 ++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index e58a979..51498f8 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -645,6 +645,9 @@ func (p *parser) parseFlowSequenceEntry(ind *indentation, ctx context) ast.Node
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
+	if p.tok.Type == token.SequenceStartType || p.tok.Type == token.MappingStartType {
+		return p.parseFlowCollectionEntry(ind, ctx)
+	}
 	p.setCheckpoint()
 	entry := p.parseFlowPair(ind, ctx)
 	if ast.ValidNode(entry) {
@@ -655,6 +658,44 @@ func (p *parser) parseFlowSequenceEntry(ind *indentation, ctx context) ast.Node
 	return p.parseFlowNode(ind, ctx)
 }
 
+// parseFlowCollectionEntry parses an entry of a flow sequence starting with a flow collection.
+// The collection is either the entry itself or a key of a single pair: it is parsed only once
+// in both cases, otherwise the number of attempts would double with each nesting level.
+func (p *parser) parseFlowCollectionEntry(ind *indentation, ctx context) ast.Node {
+	localInd := indentation{
+		value: 0,
+		mode:  strictEqualityIndentationMode,
+	}
+	p.setCheckpoint()
+	node := p.parseFlowJSONContent(&localInd, flowKeyContext)
+	if !ast.ValidNode(node) {
+		p.rollback()
+		if ctx == flowKeyContext {
+			return ast.NewInvalidNode()
+		}
+		// can't be a key, because it is multiline
+		return p.parseFlowJSONContent(ind, ctx)
+	}
+	p.commit()
+
+	p.setCheckpoint()
+
+	p.setCheckpoint()
+	if ast.ValidNode(p.parseSeparateInLine()) {
+		p.commit()
+	} else {
+		p.rollback()
+	}
+
+	value := p.parseFlowMappingAdjacentValue(ind, ctx)
+	if !ast.ValidNode(value) {
+		p.rollback()
+		return node
+	}
+	p.commit()
+	return ast.NewMappingEntryNode(node, value)
+}
+
 // YAML specification: [150] ns-flow-pair
 func (p *parser) parseFlowPair(ind *indentation, ctx context) ast.Node {
 	if p.hasErrors() {
-- 
2.43.0


From 10f920964af9589e5eb172a5f6f7a542693faff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:42 +0000
Subject: [PATCH 46/72] fix: leave the source tree unchanged while reading raw
 data with goyaml

Raw() used to change anchors and aliases of the tree for the time of
serializing it, which is a data race for readers sharing the tree.
---
 engines/goyaml/decode/raw.go    | 78 ++++++++++++++-------------------
 engines/goyaml/decode/reader.go |  1 -
 2 files changed, 32 insertions(+), 47 deletions(-)

diff --git a/engines/goyaml/decode/raw.go b/engines/goyaml/decode/raw.go
index 33ac578..97e0083 100644
--- a/engines/goyaml/decode/raw.go
+++ b/engines/goyaml/decode/raw.go
@@ -17,12 +17,12 @@ import "gopkg.in/yaml.v3"
 // transformer is used on "inner" element
 // transformer will replace *anchor with value, because there is no anchor "&anchor"
 // in "inner" element.
+//
+// The source AST may be shared with other readers, so it is left as is:
+// transformer builds a copy of the subtree.
 type rawTransformer struct {
-	topLevelAnchor string
-	metAnchors     map[string]struct{}
-	visiting       map[*yaml.Node]struct{}
-
-	dereferencedAliases []dereferencedAliasInfo
+	metAnchors map[string]struct{}
+	visiting   map[*yaml.Node]struct{}
 }
 
 func newRawTransformer() rawTransformer {
@@ -32,60 +32,46 @@ func newRawTransformer() rawTransformer {
 	}
 }
 
-type dereferencedAliasInfo struct {
-	parent *yaml.Node
-	alias  *yaml.Node
-	idx    int
-}
-
 func (rt *rawTransformer) transform(n *yaml.Node) (*yaml.Node, error) {
-	rt.topLevelAnchor = n.Anchor
-	n.Anchor = ""
-	err := rt.visitNode(n)
-	if n.Kind == yaml.AliasNode {
-		n = n.Alias
-	}
-	return n, err
+	return rt.copyNode(n, n.Kind != yaml.AliasNode)
 }
 
-func (rt *rawTransformer) visitNode(n *yaml.Node) error {
+func (rt *rawTransformer) copyNode(n *yaml.Node, omitAnchor bool) (*yaml.Node, error) {
 	if _, ok := rt.visiting[n]; ok {
-		return AliasDereferenceError{name: n.Value}
+		return nil, AliasDereferenceError{name: n.Value}
 	}
 	rt.visiting[n] = struct{}{}
 	defer delete(rt.visiting, n)
 
-	if n.Anchor != "" {
-		rt.metAnchors[n.Anchor] = struct{}{}
+	if n.Kind == yaml.AliasNode {
+		target, err := rt.copyNode(n.Alias, false)
+		if err != nil {
+			return nil, AliasDereferenceError{name: n.Value}
+		}
+		return target, nil
+	}
+
+	nodeCopy := *n
+	if omitAnchor {
+		nodeCopy.Anchor = ""
+	}
+	if nodeCopy.Anchor != "" {
+		rt.metAnchors[nodeCopy.Anchor] = struct{}{}
 	}
 	switch n.Kind {
-	case yaml.AliasNode:
-		if err := rt.visitNode(n.Alias); err != nil {
-			return AliasDereferenceError{name: n.Value}
-		}
 	case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode:
-		for i, child := range n.Content {
-			if child.Kind == yaml.AliasNode {
-				if _, metAnchor := rt.metAnchors[child.Value]; !metAnchor {
-					n.Content[i] = child.Alias
-					rt.dereferencedAliases = append(rt.dereferencedAliases, dereferencedAliasInfo{
-						parent: n,
-						alias:  child,
-						idx:    i,
-					})
-				}
+		nodeCopy.Content = make([]*yaml.Node, 0, len(n.Content))
+		for _, child := range n.Content {
+			_, metAnchor := rt.metAnchors[child.Value]
+			childCopy, err := rt.copyNode(child, false)
+			if err != nil {
+				return nil, err
 			}
-			if err := rt.visitNode(child); err != nil {
-				return err
+			if child.Kind == yaml.AliasNode && metAnchor {
+				childCopy = child
 			}
+			nodeCopy.Content = append(nodeCopy.Content, childCopy)
 		}
 	}
-	return nil
-}
-
-func (rt *rawTransformer) restore(n *yaml.Node) {
-	n.Anchor = rt.topLevelAnchor
-	for _, deref := range rt.dereferencedAliases {
-		deref.parent.Content[deref.idx] = deref.alias
-	}
+	return &nodeCopy, nil
 }
diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 7ad64ff..75f1af9 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -327,7 +327,6 @@ func (r *ASTReader) Raw() []byte {
 	if err == nil {
 		v, err = yaml.Marshal(transformed)
 	}
-	transformer.restore(curNode)
 	if err != nil {
 		r.appendError(err)
 		return nil
-- 
2.43.0


From d22a10e6dbbfa36b34367adf2f76d0daa061093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:44 +0000
Subject: [PATCH 47/72] fix: generate working code for inlined fields which are
 not embedded or are pointers

Fields of an inlined struct were addressed as if it was always embedded and never
nil: other inlined fields did not compile, encoding of a nil pointer panicked, and
embedded pointers which are not inlined were allocated even for absent entries.
---
 generator/decoder.go   | 27 ++++------------
 generator/encoder.go   | 23 ++++++-------
 generator/generator.go | 73 ++++++++++++++++++++++++++++++++++--------
 3 files changed, 79 insertions(+), 44 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 69b5a55..a1a5f5c 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -80,14 +80,6 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	fmt.Fprintln(g.out, "  }")
 	fmt.Fprintln(g.out)
 
-	for i := 0; i < t.NumField(); i++ {
-		f := t.Field(i)
-		if !f.Anonymous || f.Type.Kind() != reflect.Pointer {
-			continue
-		}
-		fmt.Fprintln(g.out, "  out."+f.Name+" = new("+g.extractTypeName(f.Type.Elem())+")")
-	}
-
 	fields, err := g.getStructFields(t)
 	if err != nil {
 		return fmt.Errorf("cannot generate decoder for %s: %w", t, err)
@@ -117,19 +109,14 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	return nil
 }
 
-func (g *Generator) generateStructFieldDecoder(f reflect.StructField) error {
-	tags := parseTags(f.Tag)
-
-	if tags.omitField {
-		return nil
-	}
-	name := f.Name
-	if tags.name != "" {
-		name = tags.name
+func (g *Generator) generateStructFieldDecoder(f structField) error {
+	fmt.Fprintln(g.out, "    case \""+f.yamlName()+"\":")
+	for _, p := range f.pointers {
+		fmt.Fprintln(g.out, "      if out."+p.selector+" == nil {")
+		fmt.Fprintln(g.out, "        out."+p.selector+" = new("+g.extractTypeName(p.elem)+")")
+		fmt.Fprintln(g.out, "      }")
 	}
-
-	fmt.Fprintln(g.out, "    case \""+name+"\":")
-	return g.generateDecoderBody(f.Type, "out."+f.Name, tags, 6, true)
+	return g.generateDecoderBody(f.Type, "out."+f.selector, parseTags(f.Tag), 6, true)
 }
 
 func (g *Generator) generateDecoderBody(
diff --git a/generator/encoder.go b/generator/encoder.go
index 20217fc..a6c128c 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -104,26 +104,27 @@ func (g *Generator) generateStructEncoder(t reflect.Type) error {
 	return nil
 }
 
-func (g *Generator) generateStructFieldEncoder(f reflect.StructField) error {
+func (g *Generator) generateStructFieldEncoder(f structField) error {
 	tags := parseTags(f.Tag)
 
-	if tags.omitField {
-		return nil
-	}
-	name := f.Name
-	if tags.name != "" {
-		name = tags.name
-	}
 	canBeNull := !(g.omitempty || tags.omitempty)
 
+	var conditions []string
+	for _, p := range f.pointers {
+		conditions = append(conditions, "in."+p.selector+" != nil")
+	}
 	if !canBeNull {
-		fmt.Fprintln(g.out, "  if "+g.generateNotEmptyCheck(f.Type, "in."+f.Name)+" {")
+		conditions = append(conditions, g.generateNotEmptyCheck(f.Type, "in."+f.selector))
+	}
+
+	if len(conditions) > 0 {
+		fmt.Fprintln(g.out, "  if "+strings.Join(conditions, " && ")+" {")
 	} else {
 		fmt.Fprintln(g.out, "  {")
 	}
 
-	fmt.Fprintln(g.out, "    out.InsertString(\""+name+"\")")
-	if err := g.generateEncoderBody(f.Type, "in."+f.Name, tags, 6, canBeNull); err != nil {
+	fmt.Fprintln(g.out, "    out.InsertString(\""+f.yamlName()+"\")")
+	if err := g.generateEncoderBody(f.Type, "in."+f.selector, tags, 6, canBeNull); err != nil {
 		return err
 	}
 	fmt.Fprintln(g.out, "  }")
diff --git a/generator/generator.go b/generator/generator.go
index 70e8497..7c6e5cf 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -385,14 +385,35 @@ func joinFunctionNameParts(keepFirst bool, parts ...string) string {
 	return buf.String()
 }
 
-func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, error) {
+// structField is a field of struct, own or inlined one.
+type structField struct {
+	reflect.StructField
+	// selector leads to the field from the host struct.
+	selector string
+	// pointers are inlined pointers lying on the way to the field.
+	pointers []inlinedPointer
+}
+
+type inlinedPointer struct {
+	selector string
+	elem     reflect.Type
+}
+
+func (f structField) yamlName() string {
+	if name := parseTags(f.Tag).name; name != "" {
+		return name
+	}
+	return f.Name
+}
+
+func (g *Generator) getStructFields(t reflect.Type) ([]structField, error) {
 	if t.Kind() != reflect.Struct {
 		return nil, fmt.Errorf("expected struct, but got %s", t)
 	}
 
 	var (
-		embeddedFields []reflect.StructField
-		fields         []reflect.StructField
+		inlinedFields []structField
+		fields        []structField
 	)
 
 	for i := 0; i < t.NumField(); i++ {
@@ -412,11 +433,11 @@ func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, erro
 			if err != nil {
 				return nil, fmt.Errorf("error processing embedded field: %w", err)
 			}
-			embeddedFields = mergeStructFields(embeddedFields, fs)
+			inlinedFields = mergeStructFields(inlinedFields, g.inlineStructFields(f, fs))
 		} else if (t.Kind() >= reflect.Bool && t.Kind() <= reflect.Complex128) || t.Kind() == reflect.String {
 			// kind is basic
-			if strings.Contains(f.Name, ".") || unicode.IsUpper([]rune(f.Name)[0]) {
-				fields = append(fields, f)
+			if unicode.IsUpper([]rune(f.Name)[0]) {
+				fields = append(fields, structField{StructField: f, selector: f.Name})
 			}
 		}
 	}
@@ -424,29 +445,55 @@ func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, erro
 	for i := 0; i < t.NumField(); i++ {
 		f := t.Field(i)
 		tags := parseTags(f.Tag)
-		if (f.Anonymous && g.inlineEmbedded && tags.name == "") || tags.inline {
+		if (f.Anonymous && g.inlineEmbedded && tags.name == "") || tags.inline || tags.omitField {
 			continue
 		}
 
 		c := []rune(f.Name)[0]
 		if unicode.IsUpper(c) {
-			fields = append(fields, f)
+			fields = append(fields, structField{StructField: f, selector: f.Name})
 		}
 	}
 
-	return mergeStructFields(embeddedFields, fields), nil
+	return mergeStructFields(inlinedFields, fields), nil
+}
+
+// inlineStructFields makes fields of inlined struct accessible from its host.
+func (g *Generator) inlineStructFields(host reflect.StructField, fields []structField) []structField {
+	prefix := host.Name + "."
+	if host.Anonymous && !host.IsExported() && host.PkgPath != g.pkgPath {
+		// only promoted fields are accessible
+		prefix = ""
+	}
+
+	inlined := make([]structField, 0, len(fields))
+	for _, f := range fields {
+		var pointers []inlinedPointer
+		if host.Type.Kind() == reflect.Pointer {
+			pointers = append(pointers, inlinedPointer{selector: host.Name, elem: host.Type.Elem()})
+		}
+		for _, p := range f.pointers {
+			pointers = append(pointers, inlinedPointer{selector: prefix + p.selector, elem: p.elem})
+		}
+		inlined = append(inlined, structField{
+			StructField: f.StructField,
+			selector:    prefix + f.selector,
+			pointers:    pointers,
+		})
+	}
+	return inlined
 }
 
-func mergeStructFields(firstFields, secondFields []reflect.StructField) []reflect.StructField {
-	fields := make([]reflect.StructField, 0, len(firstFields))
+func mergeStructFields(firstFields, secondFields []structField) []structField {
+	fields := make([]structField, 0, len(firstFields))
 	used := make(map[string]bool)
 	for _, f := range secondFields {
-		used[f.Name] = true
+		used[f.yamlName()] = true
 		fields = append(fields, f)
 	}
 
 	for _, f := range firstFields {
-		if !used[f.Name] {
+		if !used[f.yamlName()] {
 			fields = append(fields, f)
 		}
 	}
-- 
2.43.0


From 1d64d251a9b032cc20abeec0f3942a4166eb7a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:45 +0000
Subject: [PATCH 48/72] fix: quote names of fields in generated code

---
 generator/decoder.go | 2 +-
 generator/encoder.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index a1a5f5c..19cf2e7 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -110,7 +110,7 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 }
 
 func (g *Generator) generateStructFieldDecoder(f structField) error {
-	fmt.Fprintln(g.out, "    case \""+f.yamlName()+"\":")
+	fmt.Fprintln(g.out, "    case "+strconv.Quote(f.yamlName())+":")
 	for _, p := range f.pointers {
 		fmt.Fprintln(g.out, "      if out."+p.selector+" == nil {")
 		fmt.Fprintln(g.out, "        out."+p.selector+" = new("+g.extractTypeName(p.elem)+")")
diff --git a/generator/encoder.go b/generator/encoder.go
index a6c128c..c968e48 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -4,6 +4,7 @@ import (
 	"encoding"
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"github.com/KSpaceer/yamly"
@@ -123,7 +124,7 @@ func (g *Generator) generateStructFieldEncoder(f structField) error {
 		fmt.Fprintln(g.out, "  {")
 	}
 
-	fmt.Fprintln(g.out, "    out.InsertString(\""+f.yamlName()+"\")")
+	fmt.Fprintln(g.out, "    out.InsertString("+strconv.Quote(f.yamlName())+")")
 	if err := g.generateEncoderBody(f.Type, "in."+f.selector, tags, 6, canBeNull); err != nil {
 		return err
 	}
-- 
2.43.0


From 9b3f5891c6816a7a7f66fdd47fa14b903158bb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:11 +0000
Subject: [PATCH 49/72] fix: do not leave stub code behind when generation
 fails

The stub replaced previous generated code, and its methods silently do nothing.
---
 generator/bootstrap/generator.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/generator/bootstrap/generator.go b/generator/bootstrap/generator.go
index 53ebd6f..de1116b 100644
--- a/generator/bootstrap/generator.go
+++ b/generator/bootstrap/generator.go
@@ -3,8 +3,10 @@
 package bootstrap
 
 import (
+	"errors"
 	"fmt"
 	"go/format"
+	"io/fs"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -117,7 +119,20 @@ func (g *Generator) generateMain() (string, error) {
 	return dst, os.Rename(src, dst)
 }
 
-func (g *Generator) Generate() error {
+func (g *Generator) Generate() (err error) {
+	previous, readErr := os.ReadFile(g.OutputName)
+	defer func() {
+		if err == nil {
+			return
+		}
+		// stub must not be taken for generated code
+		if readErr == nil {
+			_ = os.WriteFile(g.OutputName, previous, 0o600)
+		} else if errors.Is(readErr, fs.ErrNotExist) {
+			_ = os.Remove(g.OutputName)
+		}
+	}()
+
 	if err := g.generateStub(); err != nil {
 		return fmt.Errorf("failed to generate stub: %w", err)
 	}
-- 
2.43.0


From a30544ef45c7d8f4184f53a16f979e0ae1cb1b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:12 +0000
Subject: [PATCH 50/72] fix: let several files of a package have generated
 functions for the same type

---
 generator/generator.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index 7c6e5cf..8e59062 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -301,7 +301,8 @@ func (g *Generator) generateVarName(suffixes ...string) string {
 }
 
 func (g *Generator) generateFunctionName(prefix string, t reflect.Type) string {
-	prefix = joinFunctionNameParts(true, "yamly", prefix)
+	// functions for the same type may be generated in several files of the package
+	prefix = joinFunctionNameParts(true, "yamly", g.outputFileHash(), prefix)
 	name := joinFunctionNameParts(true, prefix, safeTypeName(t))
 
 	if typ, ok := g.funcNames[name]; !ok || t == typ {
@@ -325,6 +326,12 @@ func (g *Generator) generateFunctionName(prefix string, t reflect.Type) string {
 	}
 }
 
+func (g *Generator) outputFileHash() string {
+	hasher := fnv.New32()
+	hasher.Write([]byte(g.outputFile))
+	return fmt.Sprintf("%x", hasher.Sum32())
+}
+
 func safeTypeName(t reflect.Type) string {
 	name := t.PkgPath()
 	if t.Name() == "" {
-- 
2.43.0


From efbedf7bbe5d44619a052ed60dddc02ab15f44dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 51/72] fix: generate compilable encoders of byte arrays with
 pointer receivers

---
 generator/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/encoder.go b/generator/encoder.go
index c968e48..789c876 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -248,7 +248,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 		elem := t.Elem()
 
 		if elem.Kind() == reflect.Uint8 && elem.Name() == "uint8" {
-			fmt.Fprintln(g.out, whitespace+"out.InsertString(string("+inArg+"[:]))")
+			fmt.Fprintln(g.out, whitespace+"out.InsertString(string(("+inArg+")[:]))")
 		} else {
 			iVar := g.generateVarName()
 			fmt.Fprintln(g.out, whitespace+"out.StartSequence()")
-- 
2.43.0


From ecf8c91093820145edeabc94d0cdae275e448ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 52/72] fix: encode nil interfaces as null in code generated
 for yayamls

---
 engines/yayamls/engine.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engines/yayamls/engine.go b/engines/yayamls/engine.go
index 0f15496..d2f581b 100644
--- a/engines/yayamls/engine.go
+++ b/engines/yayamls/engine.go
@@ -99,6 +99,8 @@ func (engineGenerator) GenerateMarshalEmptyInterfaceAssertions(dst io.Writer, in
 	whitespace := strings.Repeat(" ", indent)
 	fmt.Fprintln(dst, whitespace+"if m, ok := ("+inArg+").(yayamls.Marshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  out.InsertRaw(m.MarshalYAML())")
+	fmt.Fprintln(dst, whitespace+"} else if "+inArg+" == nil {")
+	fmt.Fprintln(dst, whitespace+"  out.InsertNull()")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	// TODO: add reflect-based marshaler for yayamls
 	fmt.Fprintln(dst, whitespace+"  out.InsertRaw(nil, nil)")
-- 
2.43.0


From e7335c2608a21b8d835ff8c62f57eb7f09339744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:18 +0000
Subject: [PATCH 53/72] fix: let code be generated again for types used by
 other generated code

---
 generator/bootstrap/generator.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/generator/bootstrap/generator.go b/generator/bootstrap/generator.go
index de1116b..f2f2e57 100644
--- a/generator/bootstrap/generator.go
+++ b/generator/bootstrap/generator.go
@@ -12,7 +12,10 @@ import (
 	"path/filepath"
 )
 
-const generatorPackage = "github.com/KSpaceer/yamly/generator"
+const (
+	yamlyPackage     = "github.com/KSpaceer/yamly"
+	generatorPackage = "github.com/KSpaceer/yamly/generator"
+)
 
 // Generator is used to generate a temporary bootstrap file in target package
 // with actual generator.Generator to generate the actual code.
@@ -50,6 +53,8 @@ func (g *Generator) generateStub() error {
 	fmt.Fprintln(f)
 	fmt.Fprintln(f, "package ", g.PkgName)
 	fmt.Fprintln(f)
+	fmt.Fprintf(f, "import yamly %q\n", yamlyPackage)
+	fmt.Fprintln(f)
 
 	var marshallableType string
 	if g.EncodePointerReceiver {
@@ -60,6 +65,9 @@ func (g *Generator) generateStub() error {
 
 	fmt.Fprintln(f, "func (", marshallableType, ") MarshalYAML() ([]byte, error) { return nil, nil }")
 	fmt.Fprintln(f, "func (*", g.Type, ") UnmarshalYAML([]byte) error { return nil }")
+	// previously generated code of other types may use these methods
+	fmt.Fprintln(f, "func (", marshallableType, ") MarshalYamly(yamly.Inserter) {}")
+	fmt.Fprintln(f, "func (*", g.Type, ") UnmarshalYamly(yamly.Decoder) {}")
 	fmt.Fprintln(f)
 	fmt.Fprintln(f, "type Exporter_yamly_"+g.Type+" *"+g.Type)
 	return nil
-- 
2.43.0


From 695e7401e4a521ab5b84af141e7eace31c9fa5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:27 +0000
Subject: [PATCH 54/72] fix: find the package name among files which belong to
 the build

---
 generator/parser/parser.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/generator/parser/parser.go b/generator/parser/parser.go
index 3901b7a..48d4652 100644
--- a/generator/parser/parser.go
+++ b/generator/parser/parser.go
@@ -3,6 +3,7 @@ package parser
 
 import (
 	"go/ast"
+	"go/build"
 	"go/parser"
 	"go/token"
 	"io/fs"
@@ -21,14 +22,14 @@ func (p *Parser) Parse(dirPath string) error {
 	if p.PkgPath, err = findPkgPath(dirPath); err != nil {
 		return err
 	}
-	packages, err := parser.ParseDir(
-		token.NewFileSet(),
-		dirPath,
-		func(info fs.FileInfo) bool {
-			return !strings.HasSuffix(info.Name(), "_test.go")
-		},
-		parser.PackageClauseOnly,
-	)
+	packages, err := parsePackages(dirPath, func(info fs.FileInfo) bool {
+		// files excluded by build constraints may belong to another package
+		match, err := build.Default.MatchFile(dirPath, info.Name())
+		return err == nil && match
+	})
+	if err == nil && len(packages) == 0 {
+		packages, err = parsePackages(dirPath, func(fs.FileInfo) bool { return true })
+	}
 	if err != nil {
 		return err
 	}
@@ -38,6 +39,17 @@ func (p *Parser) Parse(dirPath string) error {
 	return nil
 }
 
+func parsePackages(dirPath string, filter func(fs.FileInfo) bool) (map[string]*ast.Package, error) {
+	return parser.ParseDir(
+		token.NewFileSet(),
+		dirPath,
+		func(info fs.FileInfo) bool {
+			return !strings.HasSuffix(info.Name(), "_test.go") && filter(info)
+		},
+		parser.PackageClauseOnly,
+	)
+}
+
 type pkgNameVisitor string
 
 func (v *pkgNameVisitor) Visit(n ast.Node) (w ast.Visitor) {
-- 
2.43.0


From f53f1b31a685633b93177d5528758b16087d21b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:37 +0000
Subject: [PATCH 55/72] fix: find the package path of directories with paths
 not in the shortest form

---
 generator/parser/pkgpath.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator/parser/pkgpath.go b/generator/parser/pkgpath.go
index 65e730c..100d45c 100644
--- a/generator/parser/pkgpath.go
+++ b/generator/parser/pkgpath.go
@@ -20,6 +20,7 @@ func findPkgPath(dirPath string) (string, error) {
 		}
 		dirPath = filepath.Join(currentDir, dirPath)
 	}
+	dirPath = filepath.Clean(dirPath)
 
 	goModPath, _ := getGoModPath(dirPath)
 
-- 
2.43.0


From cb1f93d81752595c6ecd46193f2f690d3bea42df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:25 +0000
Subject: [PATCH 56/72] fix: generate valid names of imported packages

---
 generator/generator.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 8e59062..b08c2f7 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -3,6 +3,8 @@ package generator
 import (
 	"bytes"
 	"fmt"
+	"go/token"
+	"go/types"
 	"hash/fnv"
 	"io"
 	"path/filepath"
@@ -268,13 +270,24 @@ func (g *Generator) pkgAlias(pkgPath string) string {
 }
 
 func fixPkgAlias(alias string) string {
-	alias = strings.NewReplacer(".", "_", "-", "_").Replace(alias)
-	if alias[0] == 'v' {
+	alias = strings.Map(func(r rune) rune {
+		if unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, alias)
+	if alias[0] == 'v' || !token.IsIdentifier(alias) || types.Universe.Lookup(alias) != nil || reservedNames[alias] {
 		alias = "_" + alias
 	}
 	return alias
 }
 
+// reservedNames are names of variables in generated code.
+var reservedNames = map[string]bool{
+	"data": true, "err": true, "extIn": true, "in": true, "key": true, "m": true,
+	"ok": true, "out": true, "structMappingState": true,
+}
+
 func processVendoring(pkgPath string) string {
 	const vendorPath = "/vendor/"
 	if i := strings.LastIndex(pkgPath, vendorPath); i != -1 {
-- 
2.43.0


From cdfb6fab7e5da21f7ba4cae2c071eb3c9b8a2142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:17 +0000
Subject: [PATCH 57/72] fix: resolve aliases by their place in the source in
 yayamls reader

---
 engines/yayamls/decode/anchors.go | 190 ++++++++++++++++++++++++------
 engines/yayamls/decode/any.go     |  38 +++---
 engines/yayamls/decode/reader.go  |  58 ++-------
 3 files changed, 177 insertions(+), 109 deletions(-)

diff --git a/engines/yayamls/decode/anchors.go b/engines/yayamls/decode/anchors.go
index f84758d..a41ac20 100644
--- a/engines/yayamls/decode/anchors.go
+++ b/engines/yayamls/decode/anchors.go
@@ -1,76 +1,188 @@
 package decode
 
 import (
-	"maps"
-
 	"github.com/KSpaceer/yamly/engines/yayamls/ast"
 )
 
+// anchorsKeeper keeps nodes which aliases stand for: an alias stands for the node
+// with the most recent anchor of the same name preceding the alias in the source,
+// no matter how the alias is reached.
 type anchorsKeeper struct {
-	anchors    map[string]ast.Node
-	metAnchor  bool
-	anchorName string
+	anchors map[string]ast.Node
+	aliases map[*ast.AliasNode]ast.Node
 }
 
 func newAnchorsKeeper() anchorsKeeper {
 	return anchorsKeeper{
 		anchors: map[string]ast.Node{},
+		aliases: map[*ast.AliasNode]ast.Node{},
 	}
 }
 
-func (ak *anchorsKeeper) StoreAnchor(anchorName string) {
-	ak.metAnchor = true
-	ak.anchorName = anchorName
-}
-
-func (ak *anchorsKeeper) BindToLatestAnchor(n ast.Node) {
-	if ak.metAnchor {
-		ak.anchors[ak.anchorName] = n
-		ak.metAnchor = false
+// bindAliases binds aliases of the tree to nodes they stand for.
+func (ak *anchorsKeeper) bindAliases(n ast.Node) {
+	if !ast.ValidNode(n) {
+		return
+	}
+	switch n := n.(type) {
+	case *ast.AliasNode:
+		if anchored, ok := ak.anchors[n.Text()]; ok {
+			ak.aliases[n] = anchored
+		}
+	case *ast.ContentNode:
+		if anchor, ok := contentAnchor(n); ok {
+			ak.anchors[anchor] = n.Content()
+		}
+		ak.bindAliases(n.Content())
+	default:
+		for _, child := range children(n) {
+			ak.bindAliases(child)
+		}
 	}
 }
 
-func (ak *anchorsKeeper) DereferenceAlias(alias string) (ast.Node, error) {
-	anchored, ok := ak.anchors[alias]
+// dereferenceAlias returns the node which the alias stands for.
+func (ak *anchorsKeeper) dereferenceAlias(n *ast.AliasNode) (ast.Node, error) {
+	anchored, ok := ak.aliases[n]
 	if !ok {
-		return nil, AliasDereferenceError{name: alias}
+		return nil, AliasDereferenceError{name: n.Text()}
+	}
+	if !ast.ValidNode(anchored) {
+		anchored = ast.NewNullNode()
 	}
 	return anchored, nil
 }
 
-// storeSubtree stores anchors of the subtree, which is not going to be visited.
-func (ak *anchorsKeeper) storeSubtree(n ast.Node) {
-	if !ast.ValidNode(n) {
-		return
+// detach returns the subtree with aliases to nodes outside of it being replaced with
+// these nodes.
+func (ak *anchorsKeeper) detach(n ast.Node) (ast.Node, error) {
+	d := detacher{
+		anchors:  ak,
+		own:      map[ast.Node]struct{}{},
+		replaced: map[ast.Node]ast.Node{},
 	}
+	d.collectOwn(n)
+	return d.detach(n, false)
+}
+
+func (ak *anchorsKeeper) clear() {
+	clear(ak.anchors)
+	clear(ak.aliases)
+}
+
+type detacher struct {
+	anchors *anchorsKeeper
+	// own are anchored nodes of the detached subtree
+	own map[ast.Node]struct{}
+	// replaced are replacements of nodes outside of the detached subtree,
+	// with nil being a replacement of an unfinished node
+	replaced map[ast.Node]ast.Node
+}
+
+func (d *detacher) collectOwn(n ast.Node) {
+	if content, ok := n.(*ast.ContentNode); ok {
+		if _, ok := contentAnchor(content); ok {
+			d.own[content.Content()] = struct{}{}
+		}
+	}
+	for _, child := range children(n) {
+		d.collectOwn(child)
+	}
+}
+
+// detach returns a copy of n. Being foreign (i.e. taking the place of an alias),
+// the copy has neither anchors nor aliases.
+func (d *detacher) detach(n ast.Node, foreign bool) (ast.Node, error) {
 	switch n := n.(type) {
+	case *ast.AliasNode:
+		return d.detachAlias(n, foreign)
 	case *ast.ContentNode:
-		if properties, ok := n.Properties().(*ast.PropertiesNode); ok && ast.ValidNode(properties) {
-			if anchor, ok := properties.Anchor().(*ast.AnchorNode); ok && ast.ValidNode(anchor) {
-				ak.anchors[anchor.Text()] = n.Content()
+		content, err := d.detach(n.Content(), foreign)
+		if err != nil {
+			return nil, err
+		}
+		properties := n.Properties()
+		if p, ok := properties.(*ast.PropertiesNode); ok && foreign {
+			if !ast.ValidNode(p.Tag()) {
+				return content, nil
 			}
+			properties = ast.NewPropertiesNode(p.Tag(), ast.NewInvalidNode())
 		}
-		ak.storeSubtree(n.Content())
-	case *ast.SequenceNode:
-		for _, entry := range n.Entries() {
-			ak.storeSubtree(entry)
+		return ast.NewContentNode(properties, content), nil
+	}
+
+	nodes := children(n)
+	if len(nodes) == 0 {
+		return n, nil
+	}
+	detached := make([]ast.Node, 0, len(nodes))
+	for _, child := range nodes {
+		detachedChild, err := d.detach(child, foreign)
+		if err != nil {
+			return nil, err
 		}
+		detached = append(detached, detachedChild)
+	}
+	switch n.(type) {
+	case *ast.StreamNode:
+		return ast.NewStreamNode(detached), nil
+	case *ast.SequenceNode:
+		return ast.NewSequenceNode(detached), nil
 	case *ast.MappingNode:
-		for _, entry := range n.Entries() {
-			ak.storeSubtree(entry)
-		}
+		return ast.NewMappingNode(detached), nil
 	case *ast.MappingEntryNode:
-		ak.storeSubtree(n.Key())
-		ak.storeSubtree(n.Value())
+		return ast.NewMappingEntryNode(detached[0], detached[1]), nil
+	}
+	return n, nil
+}
+
+func (d *detacher) detachAlias(n *ast.AliasNode, foreign bool) (ast.Node, error) {
+	anchored, err := d.anchors.dereferenceAlias(n)
+	if err != nil {
+		return nil, err
+	}
+	if _, ok := d.own[anchored]; ok && !foreign {
+		return n, nil
 	}
+	if replacement, ok := d.replaced[anchored]; ok {
+		if replacement == nil {
+			return nil, AliasDereferenceError{name: n.Text()}
+		}
+		return replacement, nil
+	}
+	d.replaced[anchored] = nil
+	replacement, err := d.detach(anchored, true)
+	if err != nil {
+		return nil, err
+	}
+	d.replaced[anchored] = replacement
+	return replacement, nil
 }
 
-func (ak *anchorsKeeper) clone() *anchorsKeeper {
-	return &anchorsKeeper{anchors: maps.Clone(ak.anchors)}
+func contentAnchor(n *ast.ContentNode) (string, bool) {
+	properties, ok := n.Properties().(*ast.PropertiesNode)
+	if !ok || !ast.ValidNode(properties) {
+		return "", false
+	}
+	anchor, ok := properties.Anchor().(*ast.AnchorNode)
+	if !ok || !ast.ValidNode(anchor) {
+		return "", false
+	}
+	return anchor.Text(), true
 }
 
-func (ak *anchorsKeeper) clear() {
-	clear(ak.anchors)
-	ak.metAnchor = false
-	ak.anchorName = ""
+func children(n ast.Node) []ast.Node {
+	switch n := n.(type) {
+	case *ast.StreamNode:
+		return n.Documents()
+	case *ast.ContentNode:
+		return []ast.Node{n.Content()}
+	case *ast.SequenceNode:
+		return n.Entries()
+	case *ast.MappingNode:
+		return n.Entries()
+	case *ast.MappingEntryNode:
+		return []ast.Node{n.Key(), n.Value()}
+	}
+	return nil
 }
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index ae73c3b..c24b893 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -15,17 +15,14 @@ type anyBuilder struct {
 	stringValue   string
 
 	anchors *anchorsKeeper
-	// aliased shows that the value is reached through an alias
-	aliased bool
-	// aliases being dereferenced
-	aliases map[string]struct{}
+	// aliased nodes being visited
+	aliased map[ast.Node]struct{}
 	errors  []error
 }
 
-func newAnyBuilder(anchors *anchorsKeeper, aliased bool) anyBuilder {
+func newAnyBuilder(anchors *anchorsKeeper) anyBuilder {
 	return anyBuilder{
 		anchors: anchors,
-		aliased: aliased,
 	}
 }
 
@@ -43,29 +40,24 @@ func (a *anyBuilder) VisitStreamNode(*ast.StreamNode) {
 
 func (*anyBuilder) VisitTagNode(*ast.TagNode) {}
 
-func (a *anyBuilder) VisitAnchorNode(n *ast.AnchorNode) {
-	if !a.aliased && len(a.aliases) == 0 {
-		a.anchors.StoreAnchor(n.Text())
-	}
-}
+func (*anyBuilder) VisitAnchorNode(*ast.AnchorNode) {}
 
 func (a *anyBuilder) VisitAliasNode(n *ast.AliasNode) {
-	alias := n.Text()
-	if _, ok := a.aliases[alias]; ok {
-		a.appendError(AliasDereferenceError{name: alias})
-		return
-	}
-	anchored, err := a.anchors.DereferenceAlias(alias)
+	anchored, err := a.anchors.dereferenceAlias(n)
 	if err != nil {
 		a.appendError(err)
 		return
 	}
-	if a.aliases == nil {
-		a.aliases = map[string]struct{}{}
+	if _, ok := a.aliased[anchored]; ok {
+		a.appendError(AliasDereferenceError{name: n.Text()})
+		return
+	}
+	if a.aliased == nil {
+		a.aliased = map[ast.Node]struct{}{}
 	}
-	a.aliases[alias] = struct{}{}
+	a.aliased[anchored] = struct{}{}
 	a.visitNode(anchored)
-	delete(a.aliases, alias)
+	delete(a.aliased, anchored)
 }
 
 func (a *anyBuilder) VisitTextNode(n *ast.TextNode) {
@@ -175,9 +167,7 @@ func (a *anyBuilder) VisitPropertiesNode(n *ast.PropertiesNode) {
 
 func (a *anyBuilder) VisitContentNode(n *ast.ContentNode) {
 	a.visitNode(n.Properties())
-	content := n.Content()
-	a.anchors.BindToLatestAnchor(content)
-	a.visitNode(content)
+	a.visitNode(n.Content())
 }
 
 func (a *anyBuilder) extractAnyValueFromText(n *ast.TextNode) {
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index e6d8b60..e418d78 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -74,8 +74,6 @@ type routePoint struct {
 	visitingResult visitingResult
 	node           ast.Node
 	iter           nodeIterator
-	// aliased shows that the node is reached through an alias
-	aliased bool
 }
 
 type expecter interface {
@@ -141,6 +139,7 @@ func NewASTReader(tree ast.Node, opts ...ReaderOption) *ASTReader {
 
 func (r *ASTReader) setAST(tree ast.Node) {
 	r.reset()
+	r.anchors.bindAliases(tree)
 	r.pushRoutePoint(routePoint{
 		node: tree,
 	})
@@ -310,7 +309,7 @@ func (r *ASTReader) Any() any {
 		r.latestDenyError = nil
 		return nil
 	}
-	valueBuilder := newAnyBuilder(&r.anchors, r.peekRoutePoint().aliased)
+	valueBuilder := newAnyBuilder(&r.anchors)
 	v, err := valueBuilder.extractAnyValue(r.currentNode())
 	if err != nil {
 		r.appendError(err)
@@ -331,12 +330,12 @@ func (r *ASTReader) Raw() []byte {
 		r.latestDenyError = nil
 		return nil
 	}
-	anchors := &r.anchors
-	if r.peekRoutePoint().aliased {
-		anchors = anchors.clone()
+	n, err := r.anchors.detach(r.currentNode())
+	if err != nil {
+		r.appendError(err)
+		return nil
 	}
-	w := encode.NewASTWriter(encode.WithAnchorsKeeper(anchors))
-	v, err := w.WriteBytes(r.currentNode())
+	v, err := encode.NewASTWriter().WriteBytes(n)
 	if err != nil {
 		r.appendError(err)
 		return nil
@@ -357,9 +356,6 @@ func (r *ASTReader) Node() ast.Node {
 		return nil
 	}
 	n := r.currentNode()
-	if !r.peekRoutePoint().aliased {
-		r.anchors.storeSubtree(n)
-	}
 	r.popRoutePoint()
 	return n
 }
@@ -390,15 +386,11 @@ func (r *ASTReader) VisitTagNode(n *ast.TagNode) {
 }
 
 func (r *ASTReader) VisitAnchorNode(n *ast.AnchorNode) {
-	if !r.peekRoutePoint().aliased {
-		r.anchors.StoreAnchor(n.Text())
-	}
-
 	r.visitTexterNode(n)
 }
 
 func (r *ASTReader) VisitAliasNode(n *ast.AliasNode) {
-	anchored, err := r.anchors.DereferenceAlias(n.Text())
+	anchored, err := r.anchors.dereferenceAlias(n)
 	if err == nil && r.isUnfinished(anchored) {
 		err = AliasDereferenceError{name: n.Text()}
 	}
@@ -408,8 +400,7 @@ func (r *ASTReader) VisitAliasNode(n *ast.AliasNode) {
 		// the anchored node takes the place of the alias: once it is processed,
 		// the alias is processed too.
 		r.swapRoutePoint(routePoint{
-			node:    anchored,
-			aliased: true,
+			node: anchored,
 		})
 		anchored.Accept(r)
 	}
@@ -488,7 +479,7 @@ func (r *ASTReader) VisitContentNode(n *ast.ContentNode) {
 		point.iter = newContentIterator(n)
 	}
 
-	r.processComplexPoint(point, 2, beforeVisit(r.anchors.BindToLatestAnchor))
+	r.processComplexPoint(point, 2)
 }
 
 func (r *ASTReader) visitTexterNode(n ast.TexterNode) {
@@ -521,32 +512,12 @@ func (r *ASTReader) visitTexterNode(n ast.TexterNode) {
 	}
 }
 
-type complexPointOptions struct {
-	beforeVisitFuncs []func(ast.Node)
-}
-
-type complexPointOption func(*complexPointOptions)
-
-func beforeVisit(f func(ast.Node)) complexPointOption {
-	return complexPointOption(func(options *complexPointOptions) {
-		options.beforeVisitFuncs = append(options.beforeVisitFuncs, f)
-	})
-}
-
-func (r *ASTReader) processComplexPoint(point routePoint, childrenSize int, opts ...complexPointOption) {
-	var o complexPointOptions
-	for _, opt := range opts {
-		opt(&o)
-	}
-
+func (r *ASTReader) processComplexPoint(point routePoint, childrenSize int) {
 	point.visitingResult = r.currentExpecter.process(point.node, point.visitingResult)
 	r.lastVisitingResult = point.visitingResult
 	r.swapRoutePoint(point)
 	switch point.visitingResult.conclusion {
 	case visitingConclusionConsume:
-		if !point.aliased {
-			r.anchors.storeSubtree(point.node)
-		}
 		r.popRoutePoint()
 	case visitingConclusionMatch:
 	case visitingConclusionDeny:
@@ -558,14 +529,9 @@ func (r *ASTReader) processComplexPoint(point routePoint, childrenSize int, opts
 		for r.lastVisitingResult.conclusion == visitingConclusionContinue && !point.iter.empty() {
 			node := point.iter.node()
 
-			for _, beforeVisitFunc := range o.beforeVisitFuncs {
-				beforeVisitFunc(node)
-			}
-
 			if ast.ValidNode(node) {
 				r.pushRoutePoint(routePoint{
-					node:    node,
-					aliased: point.aliased,
+					node: node,
 				})
 				node.Accept(r)
 			}
-- 
2.43.0


From 0c80d720b1ce8ad8bfa7f149b9aa7cbb62cb7bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:08 +0000
Subject: [PATCH 58/72] fix: keep the meaning of anchors and aliases in raw
 data of goyaml reader

---
 engines/goyaml/decode/raw.go | 47 +++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/engines/goyaml/decode/raw.go b/engines/goyaml/decode/raw.go
index 97e0083..c6ee15d 100644
--- a/engines/goyaml/decode/raw.go
+++ b/engines/goyaml/decode/raw.go
@@ -21,22 +21,44 @@ import "gopkg.in/yaml.v3"
 // The source AST may be shared with other readers, so it is left as is:
 // transformer builds a copy of the subtree.
 type rawTransformer struct {
-	metAnchors map[string]struct{}
+	// own are nodes of the subtree
+	own map[*yaml.Node]struct{}
+	// ownAnchors are anchors of these nodes
+	ownAnchors map[string]struct{}
 	visiting   map[*yaml.Node]struct{}
 }
 
 func newRawTransformer() rawTransformer {
 	return rawTransformer{
-		metAnchors: map[string]struct{}{},
+		own:        map[*yaml.Node]struct{}{},
+		ownAnchors: map[string]struct{}{},
 		visiting:   map[*yaml.Node]struct{}{},
 	}
 }
 
 func (rt *rawTransformer) transform(n *yaml.Node) (*yaml.Node, error) {
-	return rt.copyNode(n, n.Kind != yaml.AliasNode)
+	for _, child := range n.Content {
+		rt.collectOwn(child)
+	}
+	nodeCopy, err := rt.copyNode(n, false)
+	if err != nil {
+		return nil, err
+	}
+	nodeCopy.Anchor = ""
+	return nodeCopy, nil
+}
+
+func (rt *rawTransformer) collectOwn(n *yaml.Node) {
+	rt.own[n] = struct{}{}
+	rt.ownAnchors[n.Anchor] = struct{}{}
+	for _, child := range n.Content {
+		rt.collectOwn(child)
+	}
 }
 
-func (rt *rawTransformer) copyNode(n *yaml.Node, omitAnchor bool) (*yaml.Node, error) {
+// copyNode returns a copy of n. Being foreign (i.e. taking the place of an alias),
+// the copy has no aliases and no anchors having another meaning in the subtree.
+func (rt *rawTransformer) copyNode(n *yaml.Node, foreign bool) (*yaml.Node, error) {
 	if _, ok := rt.visiting[n]; ok {
 		return nil, AliasDereferenceError{name: n.Value}
 	}
@@ -44,32 +66,29 @@ func (rt *rawTransformer) copyNode(n *yaml.Node, omitAnchor bool) (*yaml.Node, e
 	defer delete(rt.visiting, n)
 
 	if n.Kind == yaml.AliasNode {
-		target, err := rt.copyNode(n.Alias, false)
+		_, own := rt.own[n.Alias]
+		target, err := rt.copyNode(n.Alias, true)
 		if err != nil {
 			return nil, AliasDereferenceError{name: n.Value}
 		}
+		if own && !foreign {
+			return n, nil
+		}
 		return target, nil
 	}
 
 	nodeCopy := *n
-	if omitAnchor {
+	if _, ok := rt.ownAnchors[n.Anchor]; ok && foreign {
 		nodeCopy.Anchor = ""
 	}
-	if nodeCopy.Anchor != "" {
-		rt.metAnchors[nodeCopy.Anchor] = struct{}{}
-	}
 	switch n.Kind {
 	case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode:
 		nodeCopy.Content = make([]*yaml.Node, 0, len(n.Content))
 		for _, child := range n.Content {
-			_, metAnchor := rt.metAnchors[child.Value]
-			childCopy, err := rt.copyNode(child, false)
+			childCopy, err := rt.copyNode(child, foreign)
 			if err != nil {
 				return nil, err
 			}
-			if child.Kind == yaml.AliasNode && metAnchor {
-				childCopy = child
-			}
 			nodeCopy.Content = append(nodeCopy.Content, childCopy)
 		}
 	}
-- 
2.43.0


From d1246c5ffd7699d9a756fb7d186de482c97c2a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:26 +0000
Subject: [PATCH 59/72] fix: write single quoted text with line breaks in
 double quotes

---
 engines/yayamls/encode/writer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index eabe975..d7cb716 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -196,7 +196,12 @@ func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 			w.buf.WriteString(txt)
 		}
 	case ast.SingleQuotingType:
-		w.writeSingleQuotedText(txt)
+		if isMultiline(txt) {
+			// line breaks are folded in single quotes
+			w.writeDoubleQuotedText(txt)
+		} else {
+			w.writeSingleQuotedText(txt)
+		}
 	case ast.DoubleQuotingType:
 		w.writeDoubleQuotedText(txt)
 	default:
-- 
2.43.0


From a23edd0631ffa0256b485be22868334614a85419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:54 +0000
Subject: [PATCH 60/72] fix: keep line breaks of folded scalars in raw data of
 goyaml reader

---
 engines/goyaml/decode/raw.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engines/goyaml/decode/raw.go b/engines/goyaml/decode/raw.go
index c6ee15d..7a30040 100644
--- a/engines/goyaml/decode/raw.go
+++ b/engines/goyaml/decode/raw.go
@@ -81,6 +81,10 @@ func (rt *rawTransformer) copyNode(n *yaml.Node, foreign bool) (*yaml.Node, erro
 	if _, ok := rt.ownAnchors[n.Anchor]; ok && foreign {
 		nodeCopy.Anchor = ""
 	}
+	if n.Style&yaml.FoldedStyle != 0 {
+		// folded text is not always written by yaml.v3 with the same line breaks
+		nodeCopy.Style = n.Style&^yaml.FoldedStyle | yaml.DoubleQuotedStyle
+	}
 	switch n.Kind {
 	case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode:
 		nodeCopy.Content = make([]*yaml.Node, 0, len(n.Content))
-- 
2.43.0


From 796b5c48bb2555550cdd4175f5dc60466c9f194b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:17 +0000
Subject: [PATCH 61/72] fix: refuse streams of documents as raw data in goyaml
 builder

---
 engines/goyaml/encode/builder.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index 2763fc8..197afad 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -1,7 +1,10 @@
 package encode
 
 import (
+	"bytes"
+	"errors"
 	"fmt"
+	"io"
 	"strings"
 	"time"
 
@@ -147,7 +150,16 @@ func (b *ASTBuilder) InsertRaw(data []byte, err error) {
 		return
 	}
 	var n yaml.Node
-	if err := yaml.Unmarshal(data, &n); err != nil {
+	dec := yaml.NewDecoder(bytes.NewReader(data))
+	if err := dec.Decode(&n); err != nil && !errors.Is(err, io.EOF) {
+		b.fatalError = err
+		return
+	}
+	switch err := dec.Decode(&yaml.Node{}); {
+	case err == nil:
+		b.fatalError = fmt.Errorf("failed to insert raw: expected single document, got stream of documents")
+		return
+	case !errors.Is(err, io.EOF):
 		b.fatalError = err
 		return
 	}
-- 
2.43.0


From 2efc6949c871ef135dda74a0e295a7518dfc8af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:07 +0000
Subject: [PATCH 62/72] fix: accept collections, anchors, aliases and tags next
 to a quoted key in flow context

---
 engines/yayamls/lexer/context.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index c6930ca..c7eef67 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -367,9 +367,7 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.SingleQuoteCharacter:
-		if t.lookbehind(func(tok token.Token) bool {
-			return mayPrecedeWordInFlow(tok) || tok.Type == token.MappingValueType
-		}) {
+		if t.lookbehind(mayPrecedeWordInFlow) {
 			c.switchContext(singleQuoteContextType)
 			tok.End = t.pos
 			tok.Type = token.SingleQuoteType
@@ -377,9 +375,7 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.DoubleQuoteCharacter:
-		if t.lookbehind(func(tok token.Token) bool {
-			return mayPrecedeWordInFlow(tok) || tok.Type == token.MappingValueType
-		}) {
+		if t.lookbehind(mayPrecedeWordInFlow) {
 			c.switchContext(doubleQuoteContextType)
 			tok.End = t.pos
 			tok.Type = token.DoubleQuoteType
@@ -404,7 +400,7 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 }
 
 func mayPrecedeWordInFlow(tok token.Token) bool {
-	return token.MayPrecedeWord(tok) || token.IsOpeningFlowIndicator(tok)
+	return token.MayPrecedeWord(tok) || token.IsOpeningFlowIndicator(tok) || tok.Type == token.MappingValueType
 }
 
 func (c *context) commentMatching(t *Tokenizer, r rune) (token.Token, bool) {
-- 
2.43.0


From 33b8eb690262ac5051ca50a23e78f1c33f0662f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:30 +0000
Subject: [PATCH 63/72] fix: refuse block sequence entries inside of flow
 collections

---
 engines/yayamls/parser/flow.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 51498f8..d813d35 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -1128,6 +1128,16 @@ func (p *parser) parsePlainFirst(ctx context, buf *bytes.Buffer) ast.Node {
 		return ast.NewInvalidNode()
 	}
 	if p.tok.Type == token.StringType && isPlainSafeToken(p.tok, ctx) && !startsWithIndicator(p.tok) {
+		if p.tok.Origin == "-" {
+			// indicator of a block sequence entry, if separated from the text
+			p.setCheckpoint()
+			p.next()
+			separated := token.IsWhiteSpace(p.tok) || p.tok.Type == token.LineBreakType
+			p.rollback()
+			if separated {
+				return ast.NewInvalidNode()
+			}
+		}
 		// will be parsed as part of "plain in line"
 		return ast.NewBasicNode(ast.TextType)
 	}
-- 
2.43.0


From da889f450b255eff14a58645b138df816b2b61a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:47 +0000
Subject: [PATCH 64/72] fix: do not call methods of nil interfaces in generated
 code

---
 generator/decoder.go | 6 +++++-
 generator/encoder.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 19cf2e7..6591691 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -299,7 +299,11 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementsUnmarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"("+outArg+").UnmarshalYamly(in)")
+				fmt.Fprintln(g.out, whitespace+"if "+outArg+" != nil {")
+				fmt.Fprintln(g.out, whitespace+"  ("+outArg+").UnmarshalYamly(in)")
+				fmt.Fprintln(g.out, whitespace+"} else if !in.TryNull() {")
+				fmt.Fprintln(g.out, whitespace+"  in.AddError(yamly.ErrUnmarshalerImplementation)")
+				fmt.Fprintln(g.out, whitespace+"}")
 			} else if implResult, err := g.engineGen.UnmarshalersImplementationCheck(g.out, t, outArg, indent); err != nil {
 				return err
 			} else {
diff --git a/generator/encoder.go b/generator/encoder.go
index 789c876..fc16605 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -318,7 +318,11 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementMarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"("+inArg+").MarshalYamly(out)")
+				fmt.Fprintln(g.out, whitespace+"if "+inArg+" == nil {")
+				fmt.Fprintln(g.out, whitespace+"  out.InsertNull()")
+				fmt.Fprintln(g.out, whitespace+"} else {")
+				fmt.Fprintln(g.out, whitespace+"  ("+inArg+").MarshalYamly(out)")
+				fmt.Fprintln(g.out, whitespace+"}")
 			} else if implResult, err := g.engineGen.MarshalersImplementationCheck(g.out, t, inArg, indent); err != nil {
 				return err
 			} else {
-- 
2.43.0


From 7a1e887a1004eaf00b5aa127de6590bf8358e404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:41 +0000
Subject: [PATCH 65/72] fix: accept interfaces of engines as field types, as
 the generator promises

---
 engines/goyaml/engine.go  | 12 ++++++++++--
 engines/yayamls/engine.go | 12 ++++++++++--
 generator/decoder.go      | 16 ++++++++--------
 generator/encoder.go      | 16 ++++++++--------
 4 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/engines/goyaml/engine.go b/engines/goyaml/engine.go
index b1f1be7..c5c1fce 100644
--- a/engines/goyaml/engine.go
+++ b/engines/goyaml/engine.go
@@ -61,7 +61,7 @@ func (engineGenerator) UnmarshalersImplementationCheck(
 	indent int,
 ) (generator.ImplementationResult, error) {
 	unmarshalIface := reflect.TypeOf((*yaml.Unmarshaler)(nil)).Elem()
-	if reflect.PtrTo(t).Implements(unmarshalIface) {
+	if implements(t, unmarshalIface) {
 		whitespace := strings.Repeat(" ", indent)
 		fmt.Fprintln(dst, whitespace+"if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
 		fmt.Fprintln(dst, whitespace+"  in.AddError(("+outArg+").UnmarshalYAML(extIn.Node()))")
@@ -78,7 +78,7 @@ func (engineGenerator) MarshalersImplementationCheck(
 	indent int,
 ) (generator.ImplementationResult, error) {
 	marshalIface := reflect.TypeOf((*yaml.Marshaler)(nil)).Elem()
-	if reflect.PtrTo(t).Implements(marshalIface) {
+	if implements(t, marshalIface) {
 		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw(yaml.Marshal("+inArg+"))")
 		return generator.ImplementationResultTrue, nil
 	}
@@ -104,3 +104,11 @@ func (engineGenerator) GenerateMarshalEmptyInterfaceAssertions(dst io.Writer, in
 	fmt.Fprintln(dst, whitespace+"out.InsertRaw(yaml.Marshal("+inArg+"))")
 	return nil
 }
+
+// implements checks the methods available for an addressable value of type t.
+func implements(t, iface reflect.Type) bool {
+	if t.Kind() == reflect.Interface {
+		return t.Implements(iface)
+	}
+	return reflect.PtrTo(t).Implements(iface)
+}
diff --git a/engines/yayamls/engine.go b/engines/yayamls/engine.go
index d2f581b..555e519 100644
--- a/engines/yayamls/engine.go
+++ b/engines/yayamls/engine.go
@@ -64,7 +64,7 @@ func (engineGenerator) UnmarshalersImplementationCheck(
 	indent int,
 ) (generator.ImplementationResult, error) {
 	unmarshalIface := reflect.TypeOf((*Unmarshaler)(nil)).Elem()
-	if reflect.PtrTo(t).Implements(unmarshalIface) {
+	if implements(t, unmarshalIface) {
 		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"in.AddError(("+outArg+").UnmarshalYAML(in.Raw()))")
 		return generator.ImplementationResultTrue, nil
 	}
@@ -78,7 +78,7 @@ func (engineGenerator) MarshalersImplementationCheck(
 	indent int,
 ) (generator.ImplementationResult, error) {
 	marshalIface := reflect.TypeOf((*Marshaler)(nil)).Elem()
-	if reflect.PtrTo(t).Implements(marshalIface) {
+	if implements(t, marshalIface) {
 		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw(("+inArg+").MarshalYAML())")
 		return generator.ImplementationResultTrue, nil
 	}
@@ -107,3 +107,11 @@ func (engineGenerator) GenerateMarshalEmptyInterfaceAssertions(dst io.Writer, in
 	fmt.Fprintln(dst, whitespace+"}")
 	return nil
 }
+
+// implements checks the methods available for an addressable value of type t.
+func implements(t, iface reflect.Type) bool {
+	if t.Kind() == reflect.Interface {
+		return t.Implements(iface)
+	}
+	return reflect.PtrTo(t).Implements(iface)
+}
diff --git a/generator/decoder.go b/generator/decoder.go
index 6591691..602cf13 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -127,7 +127,7 @@ func (g *Generator) generateDecoderBody(
 	complexTypeElem bool,
 ) error {
 	var finishingText string
-	if t != g.currentType {
+	if t != g.currentType && t.Kind() != reflect.Interface {
 		whitespace := strings.Repeat(" ", indent)
 
 		unmarshalIface := reflect.TypeOf((*yamly.UnmarshalerYamly)(nil)).Elem()
@@ -298,13 +298,10 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 		fmt.Fprintln(g.out, whitespace+"}")
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
+			fmt.Fprintln(g.out, whitespace+"if "+outArg+" != nil {")
 			if implementsUnmarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"if "+outArg+" != nil {")
 				fmt.Fprintln(g.out, whitespace+"  ("+outArg+").UnmarshalYamly(in)")
-				fmt.Fprintln(g.out, whitespace+"} else if !in.TryNull() {")
-				fmt.Fprintln(g.out, whitespace+"  in.AddError(yamly.ErrUnmarshalerImplementation)")
-				fmt.Fprintln(g.out, whitespace+"}")
-			} else if implResult, err := g.engineGen.UnmarshalersImplementationCheck(g.out, t, outArg, indent); err != nil {
+			} else if implResult, err := g.engineGen.UnmarshalersImplementationCheck(g.out, t, outArg, indent+indentDelta); err != nil {
 				return err
 			} else {
 				switch implResult {
@@ -312,10 +309,13 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 					return fmt.Errorf("interface type %v is not supported: expect only interface{} "+
 						"(any), yamly.Unmarshaler or engine-specific unmarshalling interfaces", t)
 				case ImplementationResultConditional:
-					fmt.Fprintln(g.out, whitespace+"  in.AddError(yamly.ErrUnmarshalerImplementation)")
-					fmt.Fprintln(g.out, whitespace+"}")
+					fmt.Fprintln(g.out, whitespace+"    in.AddError(yamly.ErrUnmarshalerImplementation)")
+					fmt.Fprintln(g.out, whitespace+"  }")
 				}
 			}
+			fmt.Fprintln(g.out, whitespace+"} else if !in.TryNull() {")
+			fmt.Fprintln(g.out, whitespace+"  in.AddError(yamly.ErrUnmarshalerImplementation)")
+			fmt.Fprintln(g.out, whitespace+"}")
 		} else {
 			fmt.Fprintln(g.out, whitespace+"if m, ok := ("+outArg+").(yamly.UnmarshalerYamly); ok {")
 			fmt.Fprintln(g.out, whitespace+"  m.UnmarshalYamly(in)")
diff --git a/generator/encoder.go b/generator/encoder.go
index fc16605..84a2dc3 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -161,7 +161,7 @@ func (g *Generator) generateEncoderBody(
 	canBeNull bool,
 ) error {
 	var finishingText string
-	if t != g.currentType {
+	if t != g.currentType && t.Kind() != reflect.Interface {
 		whitespace := strings.Repeat(" ", indent)
 
 		marshalIface := reflect.TypeOf((*yamly.MarshalerYamly)(nil)).Elem()
@@ -317,13 +317,12 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 		fmt.Fprintln(g.out, whitespace+"}")
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
+			fmt.Fprintln(g.out, whitespace+"if "+inArg+" == nil {")
+			fmt.Fprintln(g.out, whitespace+"  out.InsertNull()")
+			fmt.Fprintln(g.out, whitespace+"} else {")
 			if implementMarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"if "+inArg+" == nil {")
-				fmt.Fprintln(g.out, whitespace+"  out.InsertNull()")
-				fmt.Fprintln(g.out, whitespace+"} else {")
 				fmt.Fprintln(g.out, whitespace+"  ("+inArg+").MarshalYamly(out)")
-				fmt.Fprintln(g.out, whitespace+"}")
-			} else if implResult, err := g.engineGen.MarshalersImplementationCheck(g.out, t, inArg, indent); err != nil {
+			} else if implResult, err := g.engineGen.MarshalersImplementationCheck(g.out, t, inArg, indent+2); err != nil {
 				return err
 			} else {
 				switch implResult {
@@ -331,10 +330,11 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 					return fmt.Errorf("interface type %v is not supported: expect only interface{} "+
 						"(any), yamly.Marshaler or engine-specific marshalling interfaces", t)
 				case ImplementationResultConditional:
-					fmt.Fprintln(g.out, whitespace+"  out.InsertRawText(nil, yamly.ErrMarshalerImplementation)")
-					fmt.Fprintln(g.out, whitespace+"}")
+					fmt.Fprintln(g.out, whitespace+"    out.InsertRawText(nil, yamly.ErrMarshalerImplementation)")
+					fmt.Fprintln(g.out, whitespace+"  }")
 				}
 			}
+			fmt.Fprintln(g.out, whitespace+"}")
 		} else {
 			fmt.Fprintln(g.out, whitespace+"if m, ok := ("+inArg+").(yamly.MarshalerYamly); ok {")
 			fmt.Fprintln(g.out, whitespace+"  m.MarshalYamly(out)")
-- 
2.43.0


From 68288aacb9985f3ad4205d00241eef9d9e7b2923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:45 +0000
Subject: [PATCH 66/72] fix: accept hyphens and parentheses in tags

---
 engines/yayamls/yamlchar/chars.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index 9d6941c..18f9e20 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -71,7 +71,7 @@ func IsWord(s string) bool {
 
 // YAML specification: [39] ns-uri-char
 func IsURI(s string) bool {
-	const URIOnlyChars = "-#;/?:@&=+$_.!~*'"
+	const URIOnlyChars = "-#;/?:@&=+$_.!~*'()"
 
 	runes := []rune(s)
 	n := len(runes)
@@ -95,7 +95,7 @@ func IsURI(s string) bool {
 
 // YAML specification: [40] ns-tag-char
 func IsTagString(s string) bool {
-	const TagOnlyChars = "#;/?:@&=+$_.~*'"
+	const TagOnlyChars = "-#;/?:@&=+$_.~*'()"
 
 	runes := []rune(s)
 	n := len(runes)
-- 
2.43.0


From f251846adc7f2047561f7967a0b98a8d37c74fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:58 +0000
Subject: [PATCH 67/72] fix: accept local tag prefixes and verbatim local tags

---
 engines/yayamls/parser/documents.go  | 12 ++++++++++-
 engines/yayamls/parser/properties.go | 31 ++++++++++++++++++----------
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/engines/yayamls/parser/documents.go b/engines/yayamls/parser/documents.go
index 3400152..e657587 100644
--- a/engines/yayamls/parser/documents.go
+++ b/engines/yayamls/parser/documents.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"strings"
 	"unicode"
 
 	"github.com/KSpaceer/yamly/engines/yayamls/ast"
@@ -312,7 +313,16 @@ func (p *parser) parseTagPrefix() ast.Node {
 
 // YAML specification: [94] c-ns-local-tag-prefix
 func (p *parser) parseLocalTagPrefix() ast.Node {
-	if p.hasErrors() || p.tok.Type != token.TagType {
+	if p.hasErrors() {
+		return ast.NewInvalidNode()
+	}
+	// tag indicator is a part of the string in raw mode
+	if p.tok.Type == token.StringType && strings.HasPrefix(p.tok.Origin, "!") &&
+		p.tok.ConformsCharSet(yamlchar.URICharSetType) {
+		p.next()
+		return ast.NewBasicNode(ast.TagType)
+	}
+	if p.tok.Type != token.TagType {
 		return ast.NewInvalidNode()
 	}
 	p.next()
diff --git a/engines/yayamls/parser/properties.go b/engines/yayamls/parser/properties.go
index f9c3615..a7a8a77 100644
--- a/engines/yayamls/parser/properties.go
+++ b/engines/yayamls/parser/properties.go
@@ -168,23 +168,32 @@ func (p *parser) parseTagProperty() ast.Node {
 	// raw mode for URI string
 	p.tokSrc.SetRawMode()
 	p.next()
-	p.tokSrc.UnsetRawMode()
 
 	// verbatim tag
 	// YAML specification: [98] c-verbatim-tag
-	if p.tok.Type == token.StringType && strings.HasPrefix(p.tok.Origin, "<") && len(p.tok.Origin) > 2 {
-		cutToken := token.Token{
-			Type:   token.StringType,
-			Start:  p.tok.Start,
-			End:    p.tok.End,
-			Origin: p.tok.Origin[1 : len(p.tok.Origin)-1],
-		}
-		if len(cutToken.Origin) > 0 && cutToken.ConformsCharSet(yamlchar.URICharSetType) &&
-			p.tok.Origin[len(p.tok.Origin)-1] == '>' {
+	if p.tok.Type == token.StringType && strings.HasPrefix(p.tok.Origin, "<") {
+		start, text := p.tok.Start, p.tok.Origin
+		// the string may have been split by tag indicators
+		for !strings.HasSuffix(text, ">") {
 			p.next()
-			return ast.NewTagNode(cutToken.Origin)
+			if p.tok.Type != token.StringType && p.tok.Type != token.TagType {
+				break
+			}
+			text += p.tok.Origin
+		}
+		p.tokSrc.UnsetRawMode()
+		uri := strings.TrimSuffix(strings.TrimPrefix(text, "<"), ">")
+		if uri == "" || len(uri) != len(text)-2 || !yamlchar.ConformsCharSet(uri, yamlchar.URICharSetType) {
+			p.appendError(TagError{
+				Src: text,
+				Pos: start,
+			})
+			return ast.NewInvalidNode()
 		}
+		p.next()
+		return ast.NewTagNode(uri)
 	}
+	p.tokSrc.UnsetRawMode()
 
 	// if the token after tag is string, therefore
 	// it is a broken tag name - we cannot parse data further, so we throw an error
-- 
2.43.0


From 72ff251a1a2a17987d63265a5c2373ef6d0320d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:42 +0000
Subject: [PATCH 68/72] fix: write raw data in goyaml so that it is read with
 the same meaning

---
 engines/goyaml/decode/raw.go     | 10 +++++-----
 engines/goyaml/encode/builder.go |  9 +++++++++
 engines/goyaml/schema/schema.go  | 19 +++++++++++++++++++
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/engines/goyaml/decode/raw.go b/engines/goyaml/decode/raw.go
index 7a30040..694e3b8 100644
--- a/engines/goyaml/decode/raw.go
+++ b/engines/goyaml/decode/raw.go
@@ -1,6 +1,9 @@
 package decode
 
-import "gopkg.in/yaml.v3"
+import (
+	"github.com/KSpaceer/yamly/engines/goyaml/schema"
+	"gopkg.in/yaml.v3"
+)
 
 // rawTransformer is used to transform AST before serializing to bytes.
 // The goal of transformation is to provide full context to the subtree,
@@ -81,10 +84,7 @@ func (rt *rawTransformer) copyNode(n *yaml.Node, foreign bool) (*yaml.Node, erro
 	if _, ok := rt.ownAnchors[n.Anchor]; ok && foreign {
 		nodeCopy.Anchor = ""
 	}
-	if n.Style&yaml.FoldedStyle != 0 {
-		// folded text is not always written by yaml.v3 with the same line breaks
-		nodeCopy.Style = n.Style&^yaml.FoldedStyle | yaml.DoubleQuotedStyle
-	}
+	schema.MakeWritable(&nodeCopy)
 	switch n.Kind {
 	case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode:
 		nodeCopy.Content = make([]*yaml.Node, 0, len(n.Content))
diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index 197afad..5f25211 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -9,6 +9,7 @@ import (
 	"time"
 
 	"github.com/KSpaceer/yamly"
+	goyamlschema "github.com/KSpaceer/yamly/engines/goyaml/schema"
 	"github.com/KSpaceer/yamly/engines/pkg/schema"
 	"gopkg.in/yaml.v3"
 )
@@ -169,9 +170,17 @@ func (b *ASTBuilder) InsertRaw(data []byte, err error) {
 	} else {
 		result = &n
 	}
+	makeWritable(result)
 	b.insertNode(result, false)
 }
 
+func makeWritable(n *yaml.Node) {
+	goyamlschema.MakeWritable(n)
+	for _, child := range n.Content {
+		makeWritable(child)
+	}
+}
+
 func (b *ASTBuilder) InsertRawText(data []byte, err error) {
 	if b.fatalError != nil {
 		return
diff --git a/engines/goyaml/schema/schema.go b/engines/goyaml/schema/schema.go
index f5825d0..3dc8a56 100644
--- a/engines/goyaml/schema/schema.go
+++ b/engines/goyaml/schema/schema.go
@@ -1,6 +1,7 @@
 package schema
 
 import (
+	"strings"
 	"time"
 
 	"github.com/KSpaceer/yamly/engines/pkg/schema"
@@ -106,3 +107,21 @@ func FromTimestamp(val time.Time) string {
 func ToTimestamp(src string) (t time.Time, err error) {
 	return schema.ToTimestamp(src)
 }
+
+// MakeWritable changes presentation details of a parsed node (but not of its children)
+// that yaml.v3 does not always write so that the text has the same meaning.
+func MakeWritable(n *yaml.Node) {
+	const quotedOrBlock = yaml.DoubleQuotedStyle | yaml.SingleQuotedStyle | yaml.LiteralStyle | yaml.FoldedStyle
+	n.HeadComment, n.LineComment, n.FootComment = "", "", ""
+	if n.Kind != yaml.ScalarNode {
+		return
+	}
+	switch {
+	case n.Style&quotedOrBlock == 0 && n.Value == "":
+		if IsNull(n) {
+			n.Value = "null"
+		}
+	case n.Style&(yaml.LiteralStyle|yaml.FoldedStyle) != 0, strings.ContainsRune(n.Value, '\n'):
+		n.Style = n.Style&^quotedOrBlock | yaml.DoubleQuotedStyle
+	}
+}
-- 
2.43.0


From 6454ba6e43dcbf5c5c9529ace617c57a19f53e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:53 +0000
Subject: [PATCH 69/72] fix: skip and take raw a document instead of the whole
 stream in yayamls reader

---
 engines/yayamls/decode/expected.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/expected.go b/engines/yayamls/decode/expected.go
index 223ca3e..8ec9608 100644
--- a/engines/yayamls/decode/expected.go
+++ b/engines/yayamls/decode/expected.go
@@ -264,7 +264,7 @@ func (expectRaw) name() string {
 
 func (expectRaw) process(n ast.Node, prev visitingResult) visitingResult {
 	switch n.Type() {
-	case ast.ContentType, ast.PropertiesType, ast.TagType, ast.AnchorType, ast.MappingEntryType:
+	case ast.ContentType, ast.PropertiesType, ast.TagType, ast.AnchorType, ast.StreamType, ast.MappingEntryType:
 		return visitingResult{
 			conclusion: visitingConclusionContinue,
 		}
@@ -292,7 +292,7 @@ func (expectSkip) name() string {
 
 func (expectSkip) process(n ast.Node, prev visitingResult) visitingResult {
 	switch n.Type() {
-	case ast.ContentType, ast.PropertiesType, ast.TagType, ast.AnchorType, ast.MappingEntryType:
+	case ast.ContentType, ast.PropertiesType, ast.TagType, ast.AnchorType, ast.StreamType, ast.MappingEntryType:
 		return visitingResult{
 			conclusion: visitingConclusionContinue,
 		}
-- 
2.43.0


From 35d83079692853b211c5697983014ae4b0d6a8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:13 +0000
Subject: [PATCH 70/72] fix: separate complex keys of single pairs from what is
 written before them in yayamls

---
 engines/yayamls/encode/writer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index d7cb716..6e2d774 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -249,7 +249,11 @@ func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 
 	isComplexKey := isComplex(n.Key())
 	if isComplexKey {
-		w.buf.WriteString("? ")
+		// single pair of a flow sequence has no mapping around it
+		w.writePreparedData(n)
+		w.buf.WriteString("?")
+		w.writeBeforeComplexElements(" ")
+		w.writeBeforeSimpleElements(" ")
 		w.increaseIndentation()
 	}
 
-- 
2.43.0


From f8bccd74ba5b2755a2b57ba7c4cff6bb07615669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:24 +0000
Subject: [PATCH 71/72] fix: write empty and verbatim tags readably in yayamls

---
 engines/yayamls/encode/writer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 6e2d774..d9cfca3 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -147,8 +147,14 @@ func (w *ASTWriter) VisitStreamNode(n *ast.StreamNode) {
 }
 
 func (w *ASTWriter) VisitTagNode(n *ast.TagNode) {
-	w.buf.WriteString("!!")
-	w.buf.WriteString(n.Text())
+	switch tag := n.Text(); {
+	case tag == "":
+		w.buf.WriteByte('!')
+	case yamlchar.ConformsCharSet(tag, yamlchar.TagCharSetType):
+		w.buf.WriteString("!!" + tag)
+	default:
+		w.buf.WriteString("!<" + tag + ">")
+	}
 }
 
 func (w *ASTWriter) VisitAnchorNode(n *ast.AnchorNode) {
-- 
2.43.0


From 862913db2b9bb75ff40aa700354846cf2f85fc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:35 +0000
Subject: [PATCH 72/72] fix: end scalar documents of a written stream with a
 line break in yayamls

---
 engines/yayamls/encode/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index d9cfca3..8e466a8 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -142,6 +142,7 @@ func (w *ASTWriter) VisitStreamNode(n *ast.StreamNode) {
 	for _, doc := range n.Documents() {
 		w.buf.WriteString("---\n")
 		doc.Accept(w)
+		w.maybeWriteLineBreak()
 		w.buf.WriteString("...\n")
 	}
 }
-- 
2.43.0

